package main

import (
	"encoding/json"
	"os"
	"sort"
	"unicode"
	"unicode/utf8"
)

// Char is one character of the table that the specification reads.
type Char struct {
	By  []int  `json:"by"`
	Let bool   `json:"let"`
	Num bool   `json:"num"`
	Pu  bool   `json:"pu"`
	Sp  bool   `json:"sp"`
	Sy  bool   `json:"sy"`
	Han bool   `json:"han"`
	Jp  bool   `json:"jp"`
	An  bool   `json:"an"`
	Dg  bool   `json:"dg"`
	Wd  bool   `json:"wd"`
	Low int    `json:"low"`
	Ul  int    `json:"ul"`
	R   int    `json:"r"`
	S   string `json:"s"`
	Sc  string `json:"sc"`
}

var (
	charIDs   = map[string]int{}
	charTab   []*Char
	charRunes []rune
	scripts   []string
)

func init() {
	for n := range unicode.Scripts {
		scripts = append(scripts, n)
	}
	sort.Strings(scripts)
}

func scriptOf(r rune) string {
	for _, n := range scripts {
		if unicode.Is(unicode.Scripts[n], r) {
			return n
		}
	}
	return ""
}

// charID gives the number of the character with these bytes: one rune, or one invalid byte.
func charID(s string) int {
	if id, ok := charIDs[s]; ok {
		return id
	}
	r, size := utf8.DecodeRuneInString(s)
	invalid := r == utf8.RuneError && size <= 1
	c := &Char{By: []int{}}
	for i := 0; i < len(s); i++ {
		c.By = append(c.By, int(s[i]))
	}
	charTab = append(charTab, c)
	charRunes = append(charRunes, r)
	id := len(charTab)
	charIDs[s] = id

	c.Let, c.Num = unicode.IsLetter(r), unicode.IsNumber(r)
	c.Pu, c.Sp, c.Sy = unicode.IsPunct(r), unicode.IsSpace(r), unicode.IsSymbol(r)
	c.Han = unicode.Is(unicode.Han, r)
	c.Jp = unicode.Is(unicode.Hiragana, r) || unicode.Is(unicode.Katakana, r)
	up := r >= 'A' && r <= 'Z'
	c.Dg = r >= '0' && r <= '9'
	c.An = c.Dg || up || (r >= 'a' && r <= 'z')
	c.Wd = c.An || r == '_'
	if r > 32 && r < 127 {
		c.S = string(r)
	}
	c.Sc = scriptOf(r)
	c.R, c.Low, c.Ul = id, id, id
	if invalid {
		c.R = charID("\uFFFD")
		c.Ul = c.R
		return id
	}
	if up {
		c.Low = charID(string(r + 32))
	}
	if l := unicode.ToLower(r); l != r {
		c.Ul = charID(string(l))
	}
	return id
}

// ids turns a text into character numbers
func ids(b []byte) []int {
	out := make([]int, 0, len(b))
	for len(b) > 0 {
		_, n := utf8.DecodeRune(b)
		out = append(out, charID(string(b[:n])))
		b = b[n:]
	}
	return out
}

func sids(s string) []int { return ids([]byte(s)) }

func lids(l []string) [][]int {
	out := make([][]int, 0, len(l))
	for _, s := range l {
		out = append(out, sids(s))
	}
	return out
}

func blids(l [][]byte) [][]int {
	out := make([][]int, 0, len(l))
	for _, s := range l {
		out = append(out, ids(s))
	}
	return out
}

func writeJSON(file string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(file, b, 0o644)
	}
	if err != nil {
		panic(err)
	}
}
