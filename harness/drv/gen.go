package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

type gen struct {
	*rand.Rand
	prop     string
	thorough bool
	alpha    []string // characters of this session
	words    []string // words of this session
	rich     bool
	freqs    string // kind of frequencies
}

var groups = map[string][]string{
	"han":   {"中", "国", "人", "民", "大", "学", "生", "北", "京", "市", "我", "是", "的", "一", "三", "龘", "々", "〇"},
	"kana":  {"あ", "い", "ア", "イ", "ー", "ん", "ッ", "ｱ", "・"},
	"low":   {"a", "b", "c", "x", "z"},
	"up":    {"A", "B", "Z"},
	"dig":   {"1", "2", "0", "9"},
	"lat2":  {"é", "É", "я", "Я", "ß", "Ω", "ñ", "א", "ߊ", "\u07ff"},
	"num2":  {"²", "½", "٣"},
	"two":   {"·", "«", "\u0301", "\u00a0", "×"},
	"three": {"Ａ", "１", "Ⅷ", "，", "。", "한", "ไ", "€", "\u200d", "\ufeff", "ࠀ", "ﬁ", "\u200b"},
	"four":  {"😀", "𠀀", "𝔸", "𝟘"},
	"ws":    {" ", "\t", "\n", "\r", "\u3000", "\u0085", "\u2028", "\v", "\f"},
	"pun":   {",", ".", "-", "/", "_", "+", "#", "&", "<", ">", "=", "|", "\"", "'", "$", "(", ":", "~", "@", "!", "?"},
	"odd":   {"\x00", "\xff", "\xe4", "\xb8", "\xc0", "\ufffd", "\xf0\x9f", "\xed\xa0\x80", "\xf8"},
	"edge":  {"\x7f", "\u0080", "\u0800", "\ud7ff", "\ue000", "\ufffe", "\uffff", "\U00010000", "\U0010ffff", "\u00ad", "\ufe0f", "\u061c", "\x1b", "\u3007", "\u9fff", "\u3400", "\u4dbf", "\uf900", "\U000e0001"},
	"case":  {"İ", "K", "ſ", "ǅ", "ẞ", "Ⓐ", "ı", "Ω", "Å", "Σ", "ς"},
}

func (g *gen) pick(l []string) string { return l[g.Intn(len(l))] }
func (g *gen) p(n int) bool           { return g.Intn(100) < n } // n percent

// any character at all, of each length alike
func (g *gen) anyRune() string {
	for {
		lim := [][2]int{{0x20, 0x80}, {0x80, 0x800}, {0x800, 0x10000}, {0x800, 0x10000}, {0x10000, 0x20000}, {0x20000, 0x110000}}[g.Intn(6)]
		r := rune(lim[0] + g.Intn(lim[1]-lim[0]))
		if utf8.ValidRune(r) && (unicode.IsGraphic(r) || g.p(10)) {
			return string(r)
		}
	}
}

// take n different characters of a group
func (g *gen) some(group string, n int) []string {
	l := groups[group]
	out := []string{}
	for _, k := range g.Perm(len(l)) {
		if len(out) == n {
			break
		}
		out = append(out, l[k])
	}
	return out
}

// session chooses the characters and the words.
func (g *gen) session() {
	g.alpha = nil
	g.rich = false
	switch g.Intn(10) {
	case 0, 1, 2:
		g.alpha = g.some("han", 2+g.Intn(3))
	case 3:
		g.alpha = append(g.some("han", 2), g.some("low", 2)...)
	case 4:
		g.alpha = append(append(g.some("low", 2), g.some("dig", 1)...), g.some("han", 1)...)
		if g.p(50) {
			g.alpha = append(g.alpha, " ")
		}
	case 5:
		g.alpha = append(append(g.some("han", 2), g.some("kana", 2)...), g.some("low", 1)...)
	case 6:
		g.alpha = append(append(append(g.some("han", 1), g.some("low", 1)...), g.some("up", 1)...), g.some("lat2", 2)...)
		if g.p(50) {
			g.alpha = append(g.alpha, g.some("num2", 1)...)
		}
	default:
		g.rich = true
		var names []string
		for n := range groups {
			names = append(names, n)
		}
		sort.Strings(names)
		for k := 3 + g.Intn(4); k > 0; k-- {
			g.alpha = append(g.alpha, g.some(names[g.Intn(len(names))], 1+g.Intn(3))...)
		}
		g.alpha = append(g.alpha, g.some("han", 1)...)
		for g.p(30) {
			g.alpha = append(g.alpha, g.anyRune())
		}
	}
	g.freqs = []string{"mixed", "mixed", "small", "equal", "wide"}[g.Intn(5)]
	g.words = nil
	n := 3 + g.Intn(12)
	if g.p(10) {
		n += 30
	}
	for k := 0; k < n; k++ {
		g.words = append(g.words, g.newWord())
	}
}

func (g *gen) str(n int) string {
	var s strings.Builder
	for k := 0; k < n; k++ {
		s.WriteString(g.pick(g.alpha))
	}
	return s.String()
}

// a new word, often related to the words before
func (g *gen) newWord() string {
	if len(g.words) > 0 {
		w := g.pick(g.words)
		r := []rune(w)
		switch g.Intn(12) {
		case 0, 1, 2:
			return w + g.str(1+g.Intn(2))
		case 3:
			return g.str(1) + w
		case 4:
			if len(r) > 1 && strings.ToValidUTF8(w, "") == w {
				return string(r[:len(r)-1])
			}
		case 5:
			if len(r) > 1 && strings.ToValidUTF8(w, "") == w {
				return string(r[1:])
			}
		case 6:
			if w2 := g.pick(g.words); len(w)+len(w2) < 40 {
				return w + w2
			}
		}
	}
	n := 1 + g.Intn(3)
	if g.p(3) { // a long run within
		run := strings.Repeat(g.pick([]string{"a", "ab", "a1", "abcdefg", "0123456", "é"}), 10)
		k := 5 + g.Intn(20)
		if g.p(30) {
			k = 30 + g.Intn(40)
		}
		return g.str(g.Intn(3)) + string([]rune(run + run + run + run + run + run + run)[:k]) + g.str(g.Intn(4))
	}
	switch g.Intn(14) {
	case 0:
		n += 3
	case 1:
		n = 5 + g.Intn(8)
	case 2, 3:
		n = 1
	}
	return g.str(n)
}

// a word: one of the session's, or some other text
func (g *gen) word() string {
	switch g.Intn(10) {
	case 0:
		return g.str(1 + g.Intn(3))
	case 1:
		return g.newWord()
	}
	return g.pick(g.words)
}

// text made of words and other characters
func (g *gen) textN(n int) string {
	var s strings.Builder
	for k := 0; k < n; {
		if g.p(65) {
			w := g.pick(g.words)
			if g.p(15) {
				w = strings.ToUpper(w)
			}
			s.WriteString(w)
			k += len([]rune(w))
		} else {
			s.WriteString(g.pick(g.alpha))
			k++
		}
	}
	return s.String()
}

func (g *gen) text() string {
	switch g.Intn(20) {
	case 0:
		return ""
	case 1, 2:
		return g.pick(g.words)
	case 3:
		return g.str(1)
	case 4:
		return g.textN(30 + g.Intn(30))
	case 5:
		return strings.Repeat(g.word(), 1+g.Intn(6))
	}
	return g.textN(1 + g.Intn(14))
}

// a frequency in quarters
func (g *gen) freq() int {
	switch g.freqs {
	case "equal":
		return 40
	case "small":
		return 8 + 4*g.Intn(4)
	case "wide":
		return []int{8, 12, 100, 4000, 40000, 400000, 4000000}[g.Intn(7)]
	}
	switch g.Intn(8) {
	case 0:
		return 8
	case 1:
		return 4 * (1 + g.Intn(1000000))
	case 2:
		return 8 + g.Intn(40)
	case 3:
		return []int{4, 4, 4, 4, 1, 3, 0}[g.Intn(7)]
	}
	return 4 * (2 + g.Intn(500))
}

func (g *gen) posTag() string { return g.pick([]string{"n", "v", "ns", "nr", "x", "", "动", "a"}) }

func (g *gen) cfg() *Cfg {
	c := &Cfg{Log: g.p(20)}
	if g.p(20) {
		c.Al = true
	}
	if g.p(15) {
		c.Nu = true
	}
	if g.p(20) {
		c.An = true
	}
	return c
}

func fstr(q int) string {
	return strings.TrimSuffix(strings.TrimSuffix(fmt.Sprintf("%.2f", float64(q)/4), "0"), ".0")
}

// a word that can stand in a blank-separated line
func lineWord(w string) bool {
	if w == "" {
		return false
	}
	for _, r := range w {
		if unicode.IsSpace(r) || r == '\r' {
			return false
		}
	}
	return true
}

// loadOps loads words into segmenter gi by one of the paths
func (g *gen) loadOps(gi int, words []string, how string) []Op {
	line := func(w string) string {
		if g.p(15) {
			return fmt.Sprintf("%s %s", w, fstr(g.freq()))
		}
		return strings.TrimRight(fmt.Sprintf("%s %s %s", w, fstr(g.freq()), g.posTag()), " ")
	}
	var ls []string
	for _, w := range words {
		if lineWord(w) {
			ls = append(ls, line(w))
		}
	}
	switch how {
	case "map":
		var items []Item
		for _, w := range words {
			kv := [][2]string{{"text", w}, {"freq", fstr(g.freq())}}
			if g.p(85) {
				kv = append(kv, [2]string{"pos", g.posTag()})
			}
			items = append(items, Item{kv})
		}
		return []Op{{Op: "load", G: gi, How: "map", Items: items}}
	case "names":
		return []Op{g.names(gi, []byte(strings.Join(ls, "\n")+"\n"), []byte("中国 5 n\n大学 3\n国人 7 v\n"))}
	case "str":
		return []Op{{Op: "load", G: gi, How: "str", T: b(strings.Join(ls, "\n"))}}
	case "reader":
		return []Op{{Op: "load", G: gi, How: "reader", T: b(strings.Join(ls, "\n") + "\n"), V: g.p(10) && !g.par()}, {Op: "calc", G: gi}}
	case "file":
		k := g.Intn(len(ls) + 1)
		return []Op{{Op: "load", G: gi, How: "file", V: g.p(50), By: g.p(25), Files: []File{
			{Txt: b(strings.Join(ls[:k], "\n"))}, {Txt: b(strings.Join(ls[k:], "\n") + "\n")}}}}
	}
	var out []Op
	for _, w := range words {
		out = append(out, g.add(gi, "add", w))
	}
	if g.p(80) {
		out = append(out, Op{Op: "calc", G: gi})
	}
	return out
}

func (g *gen) add(gi int, op, w string) Op {
	o := Op{Op: op, G: gi, T: b(w), F: g.freq(), P: b(g.posTag()), By: g.p(10), V: g.p(5)}
	if g.p(10) {
		o.P, o.NoPos = nil, true
	}
	return o
}

// names loads by names: lists of built-in names and of files; the texts are cut at
// line ends and dealt to the files
func (g *gen) names(gi int, txts ...[]byte) Op {
	o := Op{Op: "load", G: gi, How: "names", V: g.p(50)}
	n := 3 + 1 + g.Intn(3)
	o.Files = make([]File, n)
	for _, t := range txts {
		for _, l := range strings.SplitAfter(string(t), "\n") {
			k := g.Intn(n)
			if f := &o.Files[k]; len(f.Txt) == 0 || f.Txt[len(f.Txt)-1] == '\n' {
				f.Txt = append(f.Txt, l...)
			}
		}
	}
	for k := range o.Files {
		o.Files[k].Miss, o.Files[k].Dir = g.p(3), g.p(2)
	}
	if o.Def = g.p(10); o.Def {
		return o
	}
	all := []string{"zh", "zh_t", "zh_s", "jp", "ja", "en", "ko", "ti", "zh", "", "zh", "zhx"}
	for k := 1; k <= n-3; k++ {
		all = append(all, fmt.Sprintf("@%d", k), fmt.Sprintf("@%d", k), fmt.Sprintf("@%d", k))
	}
	for k := 1 + g.Intn(4); k > 0; k-- {
		o.L = append(o.L, []byte(g.pick(all)))
	}
	return o
}

var loadHows = []string{"map", "str", "reader", "file", "add", "map", "str", "reader", "file", "add", "names"}

// loads in goroutines are plain ones
func (g *gen) par() bool { return g.prop == "C24" || g.prop == "C25" || g.prop == "C26" }

func (g *gen) load(gi int, words []string) []Op {
	how := g.pick(loadHows)
	if how == "names" && g.par() {
		how = "str"
	}
	return g.loadOps(gi, words, how)
}

// a new segmenter with its words
func (g *gen) build(gi int, c *Cfg) []Op {
	ops := []Op{{Op: "new", G: gi, C: c}}
	if g.p(60) {
		return append(ops, g.load(gi, g.words)...)
	}
	if *c == (Cfg{}) && !g.par() && g.p(15) { // by a constructor
		c := &Cfg{An: g.p(30)}
		how := []string{"file", "str"}[g.Intn(2)]
		o := g.loadOps(gi, g.words, how)[0]
		o.Op, o.C, o.How = "newload", c, map[string]string{"file": "New", "str": "NewEmbed"}[how]
		if o.V = g.p(50); o.How == "NewEmbed" && strings.Contains(string(o.T), ", ") {
			return append(ops, g.load(gi, g.words)...)
		}
		return []Op{o}
	}
	k := g.Intn(len(g.words) + 1)
	ops = append(ops, g.load(gi, g.words[:k])...)
	return append(ops, g.load(gi, g.words[k:])...)
}

// one call that changes the dictionary
func (g *gen) edit(gi int) []Op {
	switch g.Intn(12) {
	case 0, 1, 2:
		return []Op{g.add(gi, "add", g.word())}
	case 3:
		return []Op{g.add(gi, "addf", g.word())}
	case 4, 5:
		return []Op{{Op: "rem", G: gi, T: b(g.word()), By: g.p(20), V: g.p(10)}}
	case 6, 7:
		return []Op{g.add(gi, "readd", g.word())}
	case 8, 9:
		return []Op{{Op: "calc", G: gi}}
	case 10:
		w := g.newWord()
		g.words = append(g.words, w)
		return []Op{g.add(gi, "add", w)}
	}
	return g.load(gi, []string{g.word(), g.newWord(), g.word()})
}
