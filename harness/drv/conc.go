package main

import "strings"

// concurrent sessions

// queries of several goroutines on one segmenter, and segmenters of their own
func genPar(g *gen, n int) *Session {
	s := &Session{Kind: "par"}
	s.Ops = append(s.Ops, g.build(1, g.qcfg())...)
	for k := g.Intn(4); k > 0; k-- {
		s.Ops = append(s.Ops, Op{Op: "addstop", G: 1, T: b(g.word())})
	}
	for k := g.Intn(4); k > 0; k-- {
		s.Ops = append(s.Ops, g.edit(1)...)
	}
	// segmenters of the goroutines: made once by themselves, and again while the others run
	nref := 2 + g.Intn(2)
	refs := make([][]Op, nref+1)
	for k := 1; k <= nref; k++ {
		words := g.words
		if g.p(50) {
			words = []string{g.word(), g.newWord(), g.newWord()}
		}
		refs[k] = []Op{{Op: "new", G: 10 + k, C: g.qcfg()}}
		refs[k] = append(refs[k], g.load(10+k, words)...)
		for q := g.Intn(4); q > 0; q-- {
			if g.p(70) {
				refs[k] = append(refs[k], g.edit(10+k)...)
			} else {
				refs[k] = append(refs[k], Op{Op: "addstop", G: 10 + k, T: b(g.word())})
			}
		}
		if n > 0 {
			s.Ops = append(s.Ops, refs[k]...)
		}
	}
	var calls []Op
	for k := 0; k < 24; k++ {
		fn := g.pick(callFns)
		if k < 6 {
			fn = []string{"segment", "cuth", "cutno", "slices", "poscut", "hmmcut"}[k]
		}
		calls = append(calls, Op{Op: "call", G: 1, Fn: fn, T: b(g.text())})
	}
	par := Op{Op: "par"}
	nt := 4 + g.Intn(4)
	for k := 0; k < nt; k++ {
		var th []Op
		ref := 0
		if k < nref {
			ref = k + 1
			th = append(th, refs[ref]...)
		}
		for q := 10 + g.Intn(10); q > 0; q-- {
			o := calls[g.Intn(len(calls))]
			if ref > 0 && g.p(40) {
				o.G, o.V = 10+ref, true
			}
			if g.p(10) {
				o.Us = g.Intn(300)
			}
			th = append(th, o)
		}
		par.Th = append(par.Th, th)
	}
	s.Ops = append(s.Ops, par)
	// the same calls alone
	seen := map[string]bool{}
	for _, th := range par.Th {
		for _, o := range th {
			if o.Op != "call" || n == 0 && o.G != 1 {
				continue
			}
			o.V, o.Us = false, 0
			if k := callKey(o.G, o.Fn, string(o.T)); !seen[k] {
				seen[k] = true
				s.Ops = append(s.Ops, o)
			}
		}
	}
	return s
}

// loads of models and cuts with them
func genModels(g *gen, n int) *Session {
	s := &Session{Kind: "models", Ops: []Op{{Op: "new", G: 1, C: &Cfg{}}, {Op: "load", G: 1, How: "str", T: b("龘龘龘 3 n")}}}
	text := func() string {
		t := g.hanText(1 + g.Intn(12))
		if g.p(30) {
			t = g.hanText(20 + g.Intn(15))
		}
		for g.p(35) {
			t += g.pick([]string{" ", ",", "1.5", "a", "。"}) + g.hanText(1+g.Intn(8))
		}
		return t
	}
	load := func() Op {
		o := Op{Op: "model", G: 1, M: 1 + g.Intn(len(models)-1), How: g.pick([]string{"seg", "pkg", "seg", "pkg", "new"})}
		if o.How == "new" {
			o.M = 1
		}
		return o
	}
	cut := func() Op {
		o := Op{Op: "cut", G: 1, Fn: g.pick([]string{"hmm", "hmm", "pkg", "dag", "cut"}), T: b(text())}
		if g.p(8) {
			o.Fn, o.M = "mod", 1+g.Intn(len(models)-1)
		}
		return o
	}
	nt := 3 + g.Intn(4)
	slow := g.p(40) // one model for many cuts
	par := Op{Op: "parmodel"}
	if n%8 == 5 {
		nt = 1
	}
	for k := 0; k < nt; k++ {
		var th []Op
		for q := 8 + g.Intn(12); q > 0; q-- {
			if k < 2 && g.p(80) || nt == 1 && g.p(40) {
				th = append(th, load())
				if slow {
					th[len(th)-1].Us = g.Intn(4000)
				} else if g.p(20) {
					th[len(th)-1].Us = g.Intn(300)
				}
			} else {
				th = append(th, cut())
			}
		}
		par.Th = append(par.Th, th)
	}
	s.Ops = append(s.Ops, par)
	return s
}

// clients of the server
func genServer(g *gen, n int) *Session {
	s := &Session{Kind: "server"}
	valid := func(t string) string { return strings.ToValidUTF8(t, "人") }
	for k := range g.alpha {
		g.alpha[k] = valid(g.alpha[k])
	}
	for k := range g.words {
		g.words[k] = valid(g.words[k])
	}
	if len(g.words) > 8 {
		g.words = g.words[:8]
	}
	t := "龘龘龘 3 n\n"
	for _, w := range g.words {
		if lineWord(w) && g.p(50) {
			t += w + " " + fstr(g.freq()) + g.pick([]string{"", " n", " v"}) + "\n"
		}
	}
	o := Op{Op: "server", T: b(t), H: n%3 == 1, By: g.p(40)}
	if n%6 == 2 { // each word is asked for as soon as its addition is answered, while others ask
		o.By, o.N = true, 6+g.Intn(12)
		for k := 1 + g.Intn(2); k > 0; k-- {
			var th []Op
			for q := 30; q > 0; q-- {
				w := string([]rune{rune(0x4e00 + g.Intn(60)), rune(0x5000 + g.Intn(60))})
				th = append(th, Op{Fn: "add", T: b(w), Sep: b("1000"), P: b("n")}, Op{Fn: "json", T: b(w)})
			}
			o.Th = append(o.Th, th)
		}
		s.Ops = []Op{o}
		return s
	}
	if n%5 >= 3 { // many requests of one text, while words of it are added
		hot := ""
		for len(hot) < 200+g.Intn(600) {
			hot += valid(g.textN(4))
		}
		rs := []rune(hot)
		json := Op{Fn: "json", T: b(hot), V: true}
		for k := 4 + g.Intn(3); k > 0; k-- {
			var th []Op
			for q := 6 + g.Intn(5); q > 0; q-- {
				th = append(th, json)
			}
			last := json
			last.Us = 4000
			o.Th = append(o.Th, append(th, last))
		}
		var th []Op
		for k := 2 + g.Intn(3); k > 0; k-- {
			at := g.Intn(len(rs) - 4)
			th = append(th, Op{Fn: "add", T: b(string(rs[at : at+2+g.Intn(3)])), Sep: b("1000"), P: b("n"), Us: 200 + g.Intn(2500)})
			last := json
			last.Us = g.Intn(2) * 1000
			th = append(th, last)
		}
		o.Th = append(o.Th, th)
		s.Ops = []Op{o}
		return s
	}
	for k := 3 + g.Intn(3); k > 0; k-- {
		var th []Op
		for q := 4 + g.Intn(6); q > 0; q-- {
			if g.p(35) {
				f := fstr(g.freq())
				if g.p(15) {
					f = g.pick([]string{"", "abc", "0", "1e2", "0.25", "0.5"})
				}
				th = append(th, Op{Fn: "add", T: b(valid(g.word())), Sep: b(f), P: b(g.posTag())})
			} else {
				th = append(th, Op{Fn: "json", T: b(valid(g.textN(1 + g.Intn(12)))), V: g.p(40)})
				if g.p(5) {
					th[len(th)-1].T = b(g.pick([]string{"", "<\"\\>&\u2028", "a b\n\x00中"}))
				}
			}
			if g.p(15) {
				th[len(th)-1].Us = g.Intn(1500)
			}
		}
		o.Th = append(o.Th, th)
	}
	s.Ops = []Op{o}
	return s
}
