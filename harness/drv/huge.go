package main

import (
	"fmt"
	"strings"
)

// long texts and many words: limits of sizes, of chunks and of counters do not show in
// short ones.  sizes: characters of the text of one session each.
var huge = map[string]struct {
	op    string
	sizes []int
}{
	"C01": {"seg", []int{5000, 70000}}, "C02": {"seg", []int{800}}, "C03": {"seg", []int{3000}},
	"C04": {"atoms", []int{5000, 70000}}, "C05": {"loss", []int{5000, 70000}},
	"C06": {"dagno", []int{900}}, "C07": {"dagh", []int{160}}, "C09": {"cutall", []int{5000}},
	"C10": {"cutsearch", []int{2000}}, "C11": {"search", []int{700}},
	"C20": {"poscut", []int{700}}, "C21": {"poscut", []int{500}}, "C29": {"poscut", []int{150}},
}

// words of the session with many words
var many = map[string]int{
	"C01": 1500, "C02": 1500, "C03": 1500, "C05": 1500, "C06": 1500, "C07": 1500, "C09": 1500, "C10": 1500, "C11": 1500,
	"C12": 1500, "C13": 3000, "C14": 1500, "C15": 1500, "C16": 3000, "C20": 1500, "C21": 1500, "C29": 1500, "C22": 1000, "C23": 600, "C27": 1000,
}

func hugeSessions(prop string, mk func(n int) *gen, from int) (out []*Session) {
	h := huge[prop]
	for k, size := range h.sizes {
		out = append(out, mk(from+k).hugeSession(h.op, size))
	}
	if n := many[prop]; n > 0 {
		out = append(out, mk(from+10).manySession(h.op, n))
	}
	switch prop {
	case "C01", "C02", "C03", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C15", "C19", "C20", "C21", "C29":
		out = append(out, mk(from+12).realSession(h.op))
	}
	switch prop {
	case "C01", "C02", "C03", "C06", "C07", "C09", "C11", "C12", "C20", "C21", "C29":
		out = append(out, mk(from+14).nestedSession(h.op), mk(from+15).nestedSession(h.op))
	}
	switch prop {
	case "C02", "C06", "C21":
		out = append(out, mk(from+13).cheapSession(h.op, 3000, true))
		if prop != "C02" {
			out = append(out, mk(from+16).cheapSession(h.op, 2000, false))
		}
	}
	if f := longs[prop]; f != nil {
		out = append(out, f(mk(from+11)))
	}
	return
}

func (g *gen) hugeSession(op string, n int) *Session {
	s := &Session{Kind: "huge"}
	if len(g.words) > 20 {
		g.words = g.words[:20]
	}
	s.Ops = g.build(1, g.qcfg())
	t := g.textN(n)
	o := Op{Op: op, G: 1, T: b(t), V: g.p(30), H: g.p(50)}
	if op == "loss" {
		o.Fn = g.pick([]string{"cutno", "cuth", "dag", "dagno", "cutall", "cutsearch", "hmm"})
		if o.Fn == "hmm" || o.H || o.Fn == "cuth" || o.Fn == "dag" { // the HMM cut copies its path for every character
			o.T = b(g.textN(n / 20))
		}
	}
	s.Ops = append(s.Ops, o)
	if strings.HasPrefix(op, "cut") || op == "seg" { // once more on a short text
		o.T = b(g.text())
		s.Ops = append(s.Ops, o)
	}
	return s
}

// a long text over words of equal and small cost
func (g *gen) cheapSession(op string, n int, singles bool) *Session {
	s := &Session{Kind: "cheap", Ops: []Op{{Op: "new", G: 1, C: &Cfg{}}}}
	g.alpha = g.some("han", 5)
	g.words = nil
	if singles {
		g.words = append([]string{}, g.alpha...)
	}
	for k := 0; k < 6; k++ {
		g.words = append(g.words, g.str(2+g.Intn(4)))
	}
	for k, w := range g.words {
		s.Ops = append(s.Ops, Op{Op: "add", G: 1, T: b(w), F: 4 * (8 + k + g.Intn(3)), P: b("n")})
		if !singles { // no character that only begins words
			s.Ops = append(s.Ops, Op{Op: "add", G: 1, T: b(string([]rune(w)[:1])), F: 4})
		}
	}
	s.Ops = append(s.Ops, Op{Op: "calc", G: 1})
	for _, k := range []int{n, n - 1 - g.Intn(400)} {
		t := g.str(k)
		if !singles {
			t = g.textN(k)
		}
		s.Ops = append(s.Ops, Op{Op: op, G: 1, T: b(t)})
	}
	return s
}

// words that are the beginnings and ends of one long word
func (g *gen) nestedSession(op string) *Session {
	s := &Session{Kind: "nested", Ops: []Op{{Op: "new", G: 1, C: &Cfg{}}}}
	g.alpha = g.some("han", 3+g.Intn(20))
	g.freqs = []string{"small", "equal", "mixed"}[g.Intn(3)]
	base := []rune(g.str(10 + g.Intn(24)))
	n := len(base)
	g.words = nil
	for k := 1; k <= n; k++ {
		g.words = append(g.words, string(base[:k]))
		if g.p(30) {
			g.words = append(g.words, string(base[k-1:]))
		}
	}
	if g.p(50) {
		g.Shuffle(len(g.words), func(i, j int) { g.words[i], g.words[j] = g.words[j], g.words[i] })
	}
	s.Ops = append(s.Ops, g.load(1, g.words)...)
	s.Ops = append(s.Ops, Op{Op: "calc", G: 1})
	for k := 0; k < 16; k++ {
		m := 1 + g.Intn(n)
		t := string(base[:m])
		switch k % 4 {
		case 0:
			t = string(base)
		case 1:
			t += string(base[:1+g.Intn(m)])
		case 2:
			t += g.str(2)
		}
		if g.prop == "C12" {
			s.Ops = append(s.Ops, Op{Op: "lookup", G: 1, T: b(t), V: g.p(40), H: g.p(30)}, Op{Op: "find", G: 1, T: b(t)})
		} else {
			s.Ops = append(s.Ops, Op{Op: op, G: 1, T: b(t), V: g.p(30), H: g.p(50)})
		}
		if k == 7 {
			s.Ops = append(s.Ops, g.edit(1)...)
		}
	}
	return s
}

// many words, loaded at once or in parts, then queries and edits
func (g *gen) manySession(op string, n int) *Session {
	s := &Session{Kind: "many"}
	g.alpha = append(append(g.some("han", 12), g.some("low", 3)...), g.some("kana", 2)...)
	seen := map[string]bool{}
	g.words = nil
	for len(g.words) < n {
		if w := g.newWord(); !seen[w] && len([]rune(w)) < 12 {
			seen[w] = true
			g.words = append(g.words, w)
		}
	}
	if g.prop == "C16" {
		t := strings.Join(g.words, "\n")
		s.Ops = []Op{{Op: "new", G: 1, C: &Cfg{}}, {Op: "stopfile", G: 1, Files: []File{{Txt: b(t[:len(t)/2])}, {Txt: b(t[len(t)/2:])}}}}
		for k := 0; k < 30; k++ {
			s.Ops = append(s.Ops, Op{Op: "isstop", G: 1, T: b(g.word())}, Op{Op: "rmstop", G: 1, T: b(g.pick(g.words))})
		}
		return s
	}
	k := g.Intn(n)
	s.Ops = append([]Op{{Op: "new", G: 1, C: &Cfg{}}}, g.load(1, g.words[:k])...)
	s.Ops = append(s.Ops, g.load(1, g.words[k:])...)
	if g.prop == "C22" {
		s.Ops = append(s.Ops, Op{Op: "newtags", G: 1, G2: 3}, Op{Op: "tagidf", G: 4, G2: 3, How: "new"})
		g.freqs = "small"
		for k := 70 + g.Intn(120); k > 0; k-- {
			o := g.add(4, "idfadd", g.word())
			o.F = 1 + g.Intn(60)
			s.Ops = append(s.Ops, o)
		}
		for k := 0; k < 3; k++ {
			s.Ops = append(s.Ops, Op{Op: "tags", G: 1, G2: 3, G3: 4, T: b(g.textN(300)), K: 5 + g.Intn(60)})
		}
		return s
	}
	for k := 0; k < 8; k++ {
		if k > 0 && k%3 == 0 {
			s.Ops = append(s.Ops, g.edit(1)...)
		}
		switch g.prop {
		case "C12", "C13", "C14":
			s.Ops = append(s.Ops, g.lookups(1, 10)...)
			if k%4 == 1 {
				s.Ops = append(s.Ops, Op{Op: "stats", G: 1})
			}
		case "C15":
			s.Ops = append(s.Ops, Op{Op: "suggest", G: 1, L: [][]byte{b(g.hanText(2 + g.Intn(6)))}, H: true})
		case "C23":
			s.Ops = append(s.Ops, Op{Op: "rank", G: 1, T: b(g.textN(40)), K: 20, PS: [][]byte{b("n"), b("v"), b("ns"), b("x"), b("a")}})
		case "C27":
			for r := 0; r < 2; r++ {
				s.Ops = append(s.Ops, Op{Op: "call", G: 1, Fn: callFns[k%len(callFns)], T: b(g.pick(g.words) + g.words[k])})
			}
		default:
			o := Op{Op: op, G: 1, T: b(g.textN(20 + g.Intn(20))), V: g.p(30), H: g.p(50)}
			if op == "loss" {
				o.Fn = g.pick([]string{"cutno", "cuth", "dag", "dagno"})
			}
			s.Ops = append(s.Ops, o)
		}
	}
	return s
}

// other long inputs
var longs = map[string]func(g *gen) *Session{
	"C12": func(g *gen) *Session { // long words
		s := &Session{Kind: "long", Ops: []Op{{Op: "new", G: 1, C: &Cfg{}}}}
		w := g.str(3000)
		r := []rune(strings.ToValidUTF8(strings.ReplaceAll(w, "\x00", ""), "?"))
		for _, n := range []int{2900, 300, 255, 256, 257, 65, 64, 1000} {
			v := string(r[:n])
			s.Ops = append(s.Ops, g.add(1, "add", v), Op{Op: "find", G: 1, T: b(v)}, Op{Op: "find", G: 1, T: b(string(r[:n-1]))}, Op{Op: "value", G: 1, T: b(v)})
			if n == 257 {
				s.Ops = append(s.Ops, Op{Op: "rem", G: 1, T: b(v)}, Op{Op: "find", G: 1, T: b(string(r[:256]))})
			}
		}
		return s
	},
	"C13": func(g *gen) *Session { // long lines
		s := &Session{Kind: "long"}
		w := strings.Repeat("中国人", 4000)
		gi := 0
		for _, sep := range []string{"", ",", "||"} {
			d := sep + " "
			rs := []string{"大学" + d + "5" + d + "n", w + d + "7" + d + "v", "学生" + d + "8", "国" + d + "9" + d + strings.Repeat("n", 70000), "人民" + d + "4" + d + "n"}
			for _, how := range []string{"str", "reader", "file"} {
				gi++
				o := Op{Op: "load", G: gi, How: how, T: b(strings.Join(rs, "\n"))}
				if how == "file" {
					o.Files = []File{{Txt: o.T}}
				}
				s.Ops = append(s.Ops, Op{Op: "new", G: gi, C: &Cfg{Sep: sep}}, o, Op{Op: "stats", G: gi}, Op{Op: "find", G: gi, T: b("人民")},
					Op{Op: "find", G: gi, T: b("国")}, Op{Op: "find", G: gi, T: b(w)}, Op{Op: "find", G: gi, T: b("学生")})
			}
		}
		return s
	},
	"C16": func(g *gen) *Session { // a line longer than the buffer of a scanner
		l := strings.Repeat("中a", 17000+g.Intn(6000))
		t := "大学\n" + l + "\n学生\n"
		s := &Session{Kind: "long", Ops: []Op{{Op: "new", G: 1, C: &Cfg{}}, {Op: "new", G: 2, C: &Cfg{}}, {Op: "new", G: 3, C: &Cfg{}},
			{Op: "stopfile", G: 1, Files: []File{{Txt: b(t)}}}, {Op: "stopstr", G: 2, T: b(t)}, {Op: "stopfile", G: 3, Files: []File{{Txt: b(strings.Repeat("国\n", 9000) + "学生")}}}}}
		for k := 1; k < 4; k++ {
			for _, w := range []string{"大学", "学生", l, l[:len(l)-1], "中", "国"} {
				s.Ops = append(s.Ops, Op{Op: "isstop", G: k, T: b(w)})
			}
		}
		return s
	},
	"C17": func(g *gen) *Session {
		s := &Session{Kind: "long", Ops: []Op{{Op: "new", G: 1, C: &Cfg{}}}}
		t := ""
		for len(t) < 6000 {
			t += g.mixed()
		}
		for _, fn := range []string{"symbol", "emoji", "rangetext"} {
			s.Ops = append(s.Ops, Op{Op: "filter", Fn: fn, T: b(t)})
		}
		s.Ops = append(s.Ops, Op{Op: "filter", Fn: "lang", T: b(t), Lang: "Han"}, Op{Op: "filterl", Fn: "range", T: b(t)}, Op{Op: "filterl", Fn: "splitnum", T: b(t[:1500])},
			Op{Op: "filter", Fn: "html", T: b(strings.Repeat(g.html(), 40))}, Op{Op: "filter", Fn: "html", T: b("a<b " + strings.Repeat("x", 5000) + "=\"y\">c")})
		o := Op{Op: "trim", G: 1, Fn: "trim"}
		p := Op{Op: "trim", G: 1, Fn: "trimpos"}
		for k := 0; k < 600; k++ {
			o.L = append(o.L, b(g.item()))
			p.LP = append(p.LP, TextPos{b(g.item()), b(g.posTag())})
		}
		for k, fn := range []string{"trim", "trimsymbol", "trimpunct", "trimpos", "trimpospunct", "trimwithpos", "ptrim", "ptrimpunct", "ptrimwithpos"} {
			q := o
			if k > 2 {
				q = p
				q.PS = [][]byte{b("n"), b("x")}
			}
			q.Fn = fn
			s.Ops = append(s.Ops, q)
		}
		return s
	},
	"C18": func(g *gen) *Session {
		s := &Session{Kind: "long"}
		s.Ops = g.build(1, &Cfg{})
		for _, fn := range []string{"cutstop", "cuttrim", "cuthtml", "cuthtmls", "cuturl", "cuturls", "postrim", "postrimarr", "postrimstr"} {
			s.Ops = append(s.Ops, Op{Op: "comp", G: 1, Fn: fn, T: b(g.textN(700)), H: g.p(50), Def: g.p(30)})
		}
		return s
	},
	"C19": func(g *gen) *Session {
		s := &Session{Kind: "long"}
		s.Ops = g.build(1, &Cfg{})
		for k := 0; k < 3; k++ {
			var l [][]byte
			t := ""
			for q := 0; q < 150; q++ {
				w := g.pick(g.words)
				l = append(l, b(w))
				t += w
			}
			if k == 1 {
				t = ""
			}
			s.Ops = append(s.Ops, Op{Op: "analyze", G: 1, T: b(t), L: l, By: g.p(40)}, Op{Op: "occs", T: b(t), L: l[:20]})
		}
		far := strings.Repeat(g.pick([]string{"q", "€", "\U0001F600", "q€"}), 10000+g.Intn(5000))
		l := [][]byte{b(g.pick(g.words)), b(g.pick(g.words)), []byte("zz")}
		t := far + string(l[0]) + far + string(l[1]) + "zz"
		s.Ops = append(s.Ops, Op{Op: "analyze", G: 1, T: b(t), L: l}, Op{Op: "occs", T: b(t), L: l},
			Op{Op: "analyze", G: 1, L: append([][]byte{b(far), b(far)}, l...)}, Op{Op: "analyze", G: 1, L: append([][]byte{b(far)}, l...), By: true})
		return s
	},
	"C28": func(g *gen) *Session {
		s := &Session{Kind: "long"}
		for k := 0; k < 3; k++ {
			var l []string
			for q := 0; q < 120; q++ {
				l = append(l, g.pick([]string{"zh", "zh_s", "zh_t", "ja", "jp", "en", fmt.Sprintf("u%d.txt", q), "ko", "/x/中.txt"}))
			}
			s.Ops = append(s.Ops, Op{Op: "paths", T: b(strings.Join(l, []string{",", ", "}[k%2]))})
		}
		return s
	},
}
