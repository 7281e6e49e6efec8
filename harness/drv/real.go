package main

import (
	"os"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// The dictionary that comes with gse: some two hundred thousand words.  A session on it
// tells the specification only the words that its texts can contain (and the longest
// ones), and the total of all frequencies: no other word matters for its calls.
const realPath = "/repo/data/dict/zh/t_1.txt"

type realLine struct {
	w, f, p string
	n       int
}

var realDict struct {
	sync.Once
	lines []realLine // the first line of each word
	ok    bool
	tot   int // quarters
	max   int // characters of the longest word
}

func loadReal() bool {
	d := &realDict
	d.Do(func() {
		bt, err := os.ReadFile(realPath)
		if err != nil || strings.Contains(string(bt), "\r") {
			return
		}
		seen := map[string]bool{}
		for _, l := range strings.Split(string(bt), "\n") {
			f := strings.Fields(l)
			if len(f) < 2 || len(f) > 3 {
				continue
			}
			v, err := strconv.ParseFloat(f[1], 64)
			k := utf8.RuneCountInString(f[0])
			if err != nil || v < 2 || v != float64(int(v)) {
				continue
			}
			if k == 1 {
				v = 2
			}
			if w := strings.ToLower(f[0]); !seen[w] {
				seen[w] = true
				r := realLine{w: f[0], f: f[1], n: len(f)}
				if len(f) > 2 {
					r.p = f[2]
				}
				d.lines = append(d.lines, r)
				d.tot += 4 * int(v)
				if k > d.max {
					d.max = k
				}
			}
		}
		d.ok = d.tot < 1000000000 && len(d.lines) > 1000
	})
	return d.ok
}

// the lines that matter for these texts
func realItems(texts [][]byte) (out []M, ft []string) {
	subs := map[string]bool{}
	for _, t := range texts {
		for _, u := range []string{string(t), strings.ToLower(string(t)), asciiLower(string(t))} {
			r := []rune(u)
			for i := range r {
				for j := i + 1; j <= len(r) && j <= i+realDict.max; j++ {
					subs[string(r[i:j])] = true
				}
			}
		}
	}
	ext := map[string]bool{} // of the texts that only begin words, one such word
	out = []M{}
	for _, l := range realDict.lines {
		w := strings.ToLower(l.w)
		need := subs[w] || utf8.RuneCountInString(w) == realDict.max
		for k := range w {
			if k > 0 && subs[w[:k]] && !ext[w[:k]] {
				need = true
				ext[w[:k]] = true
			}
		}
		if need {
			out = append(out, M{"n": l.n, "t": sids(l.w), "ft": sids(l.f), "p": sids(l.p)})
			ft = append(ft, l.f)
		}
	}
	return
}

func asciiLower(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			return r + 32
		}
		return r
	}, s)
}

// texts of a call
func (o *Op) texts() (l [][]byte) {
	l = append(append(l, o.T), o.L...)
	for _, p := range o.LP {
		l = append(l, p.T)
	}
	return
}

func (g *gen) realSession(op string) *Session {
	s := &Session{Kind: "real"}
	if !loadReal() {
		return s
	}
	g.words = nil
	for k := 0; k < 40; k++ {
		w := realDict.lines[g.Intn(len(realDict.lines))].w
		g.words = append(g.words, w)
		if g.p(40) { // and part of it
			r := []rune(w)
			i := g.Intn(len(r))
			g.words = append(g.words, string(r[i:]))
		}
	}
	g.alpha = append(g.some("han", 6), "機", "學", "國", "A", "1", "，")
	s.Ops = []Op{{Op: "new", G: 1, C: &Cfg{}}, {Op: "load", G: 1, How: "real", V: g.p(50)}}
	for k := 0; k < 24; k++ {
		if k%8 == 5 {
			o := g.edit(1)[0]
			if o.Op == "load" {
				o = Op{Op: "calc", G: 1}
			}
			s.Ops = append(s.Ops, o)
		}
		switch {
		case g.prop == "C12" || g.prop == "C13" || g.prop == "C14":
			s.Ops = append(s.Ops, Op{Op: "find", G: 1, T: b(g.pick(g.words))}, Op{Op: "find", G: 1, T: b(g.word())})
		case g.prop == "C15":
			s.Ops = append(s.Ops, Op{Op: "suggest", G: 1, L: [][]byte{b(noAlnum(g.textN(2 + g.Intn(5))))}})
		case g.prop == "C19":
			s.Ops = append(s.Ops, Op{Op: "analyze", G: 1, L: [][]byte{b(g.word()), b(g.word())}})
		default:
			o := Op{Op: op, G: 1, T: b(g.textN(6 + g.Intn(14))), V: g.p(30), H: g.p(50)}
			if op == "loss" {
				o.Fn = g.pick([]string{"cutno", "cuth", "dag", "dagno"})
			}
			s.Ops = append(s.Ops, o)
		}
	}
	for k := range s.Ops {
		if k != 1 {
			s.Ops[1].L = append(s.Ops[1].L, s.Ops[k].texts()...)
		}
	}
	return s
}
