package main

import (
	"encoding/json"
	"fmt"
	"os"
)

// alphabet is what the histories of a model are made of: calls, or pieces of text.
type alphabet struct {
	pre   []Op
	ops   []Op
	syms  []string // pieces of text, if the histories are texts
	texts []string // texts to cut afterwards
	group int      // histories in one session
}

func allTexts(syms []string, n int) (out []string) {
	last := []string{""}
	for k := 0; k < n; k++ {
		var next []string
		for _, p := range last {
			for _, s := range syms {
				next = append(next, p+s)
			}
		}
		out = append(out, next...)
		last = next
	}
	return
}

func item(kv ...string) Item {
	var it Item
	for k := 0; k+1 < len(kv); k += 2 {
		it.KV = append(it.KV, [2]string{kv[k], kv[k+1]})
	}
	return it
}

var editWords = []string{"国", "国人", "国人中", "人", "Ab", "", "国\x00", "b"}

func alphabetOf(name string) *alphabet {
	new1 := Op{Op: "new", G: 1, C: &Cfg{}}
	new2 := Op{Op: "new", G: 2, C: &Cfg{}}
	add := func(gi int, op, w string, f int, p string) Op {
		return Op{Op: op, G: gi, T: b(w), F: f, P: b(p)}
	}
	a := &alphabet{group: 1}
	switch name {
	case "dict": // all small dictionaries
		a.pre = []Op{new1}
		for k, w := range allTexts([]string{"中", "国"}, 3) {
			a.ops = append(a.ops, add(1, "add", w, 8, "n"), add(1, "add", w, 80+4*k, "v"))
		}
		a.texts = allTexts([]string{"中", "国"}, 4)
	case "mixed": // small dictionaries of Latin and kana words
		a.pre = []Op{new1}
		for k, w := range []string{"a", "ab", "a中", "中a", "1", "a1", "あ", "中あ", "ああ", "中ああ", "あ中", "中中", "中あ中"} {
			a.ops = append(a.ops, add(1, "add", w, 12, "n"), add(1, "add", w, 200+8*k, "v"))
		}
		a.texts = []string{"a", "ab", "aa", "a1", "ab1a", "a 中", "中a中", "中a1", "1中あ", "ああ", "中ああ中", "あ中あ", "中中あ中", "aあb", "Ab中", "中あ中あああ", "a中b中1", "中\xffa"}
	case "edit":
		a.pre = []Op{new1}
		a.ops = []Op{
			add(1, "add", "国", 8, "n"), add(1, "add", "国", 12, "v"), add(1, "add", "国人", 20, "n"), add(1, "add", "国人中", 28, ""),
			add(1, "addf", "Ab", 16, "x"), add(1, "readd", "国", 40, "a"), add(1, "readd", "国人", 44, ""), add(1, "add", "", 8, "n"),
			{Op: "rem", G: 1, T: b("国")}, {Op: "rem", G: 1, T: b("国人")}, {Op: "rem", G: 1, T: b("国人中")}, {Op: "rem", G: 1, T: b("aB")},
			{Op: "calc", G: 1}, add(1, "add", "国\x00", 8, "n"),
		}
	case "life":
		a.pre = []Op{new1}
		a.ops = []Op{
			{Op: "load", G: 1, How: "map", Items: []Item{item("text", "国", "freq", "5", "pos", "n"), item("text", "国人", "freq", "7")}},
			{Op: "load", G: 1, How: "str", T: b("国人中 4 a\n国 9 v")},
			{Op: "load", G: 1, How: "file", Files: []File{{Txt: b("人 3 n\n国人 8\n")}}},
			{Op: "load", G: 1, How: "file", Files: []File{{Txt: b("人中 3 n")}, {Miss: true}, {Txt: b("b 3\n")}}},
			{Op: "load", G: 1, How: "reader", T: b("Ab 30 x\n")},
			{Op: "load", G: 1, How: "reader", T: b("人 6\n"), V: true},
			{Op: "load", G: 1, How: "map"},
			{Op: "empty", G: 1}, {Op: "calc", G: 1},
			add(1, "add", "国", 20, "x"), add(1, "addf", "国人", 24, "y"), add(1, "readd", "国", 28, ""), {Op: "rem", G: 1, T: b("国人")},
		}
		a.texts = []string{"国人中国Ab", "人中人"}
	case "stop":
		a.pre = []Op{new1, new2}
		a.ops = []Op{
			{Op: "addstop", G: 1, T: b("国")}, {Op: "addstop", G: 2, T: b("国")}, {Op: "addstop", G: 1, T: b("")},
			{Op: "stoparr", G: 1, L: [][]byte{b("国"), b("b")}}, {Op: "stoparr", G: 2, L: [][]byte{b("人")}, V: true}, {Op: "stoparr", G: 2},
			{Op: "stopstr", G: 1, T: b("人\n\n b \n")}, {Op: "stopfile", G: 2, Files: []File{{Txt: b("国\r\nb\n")}, {Txt: b("人")}}},
			{Op: "stopfile", G: 1, Files: []File{{Txt: b("b\n")}, {Miss: true}}},
			{Op: "stopfile", G: 1, Files: []File{{Dir: true}, {Txt: b("国\n")}}},
			{Op: "rmstop", G: 1, T: b("国")}, {Op: "rmstop", G: 2, T: b("人")}, {Op: "emptystop", G: 1}, {Op: "emptystop", G: 2},
		}
	case "calls":
		a.pre = []Op{new1, {Op: "load", G: 1, How: "str", T: b("国人 5 n\n人中 7 v\n国人中 3 n\nab 4 x")},
			new2, {Op: "load", G: 2, How: "str", T: b("国人 50 v\n中国 7 n")}, {Op: "addstop", G: 1, T: b("国人")}}
		for k, f := range []string{"segment", "mode", "cuth", "cutall", "cutsearchh", "slices", "split", "analyze", "trimpos", "poscut", "suggest", "find"} {
			a.ops = append(a.ops, Op{Op: "call", G: 1, Fn: f, T: b([]string{"国人中", "AB国人中国", "国人中 ab,人中"}[k%3])})
		}
		a.ops = append(a.ops, add(2, "add", "人中", 8, "n"), Op{Op: "rem", G: 2, T: b("国人")}, Op{Op: "empty", G: 2},
			Op{Op: "addstop", G: 2, T: b("中国")}, Op{Op: "emptystop", G: 2}, add(2, "addf", "国人中", 8, "q"),
			Op{Op: "load", G: 2, How: "map", Items: []Item{item("text", "人中", "freq", "9", "pos", "z")}})
	case "text1":
		a.pre = []Op{new1, {Op: "load", G: 1, How: "str", T: b("中A 5 n\n中 4\na 9 v\né 3")}}
		a.syms = []string{"A", "é", "1", "½", "中", " "}
		a.group = 30
	case "hmm":
		a.pre = []Op{new1}
		a.syms = []string{"中", "国", "龘", "a", "1", ".", " "}
		a.group = 30
	case "filter":
		a.pre = []Op{new1, {Op: "addstop", G: 1, T: b("a")}}
		a.syms = []string{"<", ">", "a", " ", ",", "中", "1", "😀", "$"}
		a.group = 40
	case "paths":
		a.syms = []string{"zh", "zh_s", "zh_t", "ja", "en", "", "d.txt", "ko"}
		a.group = 40
	default:
		fmt.Fprintln(os.Stderr, "no such alphabet", name)
		os.Exit(3)
	}
	return a
}

// writeAlphabet writes the alphabet for the models.
func writeAlphabet(name, file, dir string) {
	a := alphabetOf(name)
	x := newExec(dir)
	event := func(o *Op) M {
		n := len(x.ev)
		if !x.run(o) || len(x.ev) <= n {
			return M{"op": "skip"}
		}
		return x.ev[len(x.ev)-1]
	}
	pre, evs, syms, texts := []M{}, []M{}, [][]int{}, [][]int{}
	for k := range a.pre {
		pre = append(pre, event(&a.pre[k]))
	}
	for k := range a.ops {
		evs = append(evs, event(&a.ops[k]))
	}
	for _, s := range a.syms {
		syms = append(syms, sids(s))
	}
	for _, s := range a.texts {
		texts = append(texts, sids(s))
	}
	words := [][]int{}
	for _, w := range editWords {
		words = append(words, sids(w))
	}
	tr := M{"sp": charID(" "), "sl": charID("/"), "xp": sids("x"), "eng": sids("eng"), "pre": pre, "evs": evs, "syms": syms, "texts": texts, "words": words}
	tr["chars"] = charTab
	writeJSON(file, tr)
}

// readHistories makes sessions of the histories.
func readHistories(file, prop string) (ss []*Session) {
	var h struct {
		Alphabet string
		Hist     [][]int
	}
	bt, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(bt, &h)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, file, err)
		os.Exit(3)
	}
	a := alphabetOf(h.Alphabet)
	for k := 0; k < len(h.Hist); k += a.group {
		s := &Session{Kind: "behaviour " + h.Alphabet, Ops: append([]Op{}, a.pre...)}
		for q := k; q < k+a.group && q < len(h.Hist); q++ {
			if a.syms != nil {
				var l []string
				for _, i := range h.Hist[q] {
					l = append(l, a.syms[i-1])
				}
				s.Ops = append(s.Ops, textProbes(prop, h.Alphabet, l)...)
				continue
			}
			for _, i := range h.Hist[q] {
				s.Ops = append(s.Ops, a.ops[i-1])
			}
			s.Ops = append(s.Ops, histProbes(prop, h.Alphabet, a)...)
		}
		ss = append(ss, s)
	}
	return
}

func join(l []string, sep string) string {
	t := ""
	for k, s := range l {
		if k > 0 {
			t += sep
		}
		t += s
	}
	return t
}

// what to ask about a text
func textProbes(prop, name string, l []string) (ops []Op) {
	t := b(join(l, ""))
	switch prop {
	case "C01":
		for k := 0; k < 4; k++ {
			ops = append(ops, Op{Op: "opts", G: 1, C: &Cfg{Al: k == 1, Nu: k == 2, An: k == 3}}, Op{Op: "seg", G: 1, T: t})
		}
		ops = append(ops, Op{Op: "seg", G: 1, T: t, V: true})
	case "C04":
		for k := 0; k < 8; k++ {
			ops = append(ops, Op{Op: "opts", G: 1, C: &Cfg{Al: k&1 > 0, Nu: k&2 > 0, An: k&4 > 0}}, Op{Op: "atoms", G: 1, T: t})
		}
		ops = append(ops, Op{Op: "tolower", V: len(l)%2 == 0}, Op{Op: "atoms", G: 1, T: t, Def: true})
	case "C05":
		for _, f := range []string{"cutno", "cuth", "dag", "dagno", "hmm"} {
			ops = append(ops, Op{Op: "loss", G: 1, Fn: f, T: t})
		}
	case "C08":
		for m := 1; m < len(models); m++ {
			ops = append(ops, Op{Op: "model", G: 1, M: m}, Op{Op: "hmm", G: 1, T: t})
		}
	case "C17":
		for _, f := range []string{"symbol", "emoji", "html", "rangetext", "splitnums"} {
			ops = append(ops, Op{Op: "filter", Fn: f, T: t})
		}
		ops = append(ops, Op{Op: "filter", Fn: "lang", Lang: "Han", T: t}, Op{Op: "filterl", Fn: "splitnum", T: t}, Op{Op: "filterl", Fn: "range", T: t})
		var bl [][]byte
		var tp []TextPos
		for k, s := range l {
			bl = append(bl, b(s))
			tp = append(tp, TextPos{b(s), b([]string{"n", "v", ""}[k%3])})
		}
		bl = append(bl, t)
		tp = append(tp, TextPos{t, b("n")})
		for _, f := range []string{"trim", "trimsymbol", "trimpunct"} {
			ops = append(ops, Op{Op: "trim", G: 1, Fn: f, L: bl})
		}
		for _, f := range []string{"trimpos", "trimpospunct", "trimwithpos", "ptrim", "ptrimpunct", "ptrimwithpos"} {
			ops = append(ops, Op{Op: "trim", G: 1, Fn: f, LP: tp, PS: [][]byte{b("v"), b("")}[:len(l)%3]})
		}
	case "C28":
		ops = append(ops, Op{Op: "paths", T: b(join(l, ","))}, Op{Op: "paths", T: b(join(l, ", "))})
	default:
		panic(harnessBug)
	}
	return
}

// what to ask after a history
func histProbes(prop, name string, a *alphabet) (ops []Op) {
	texts := func(f func(t string) []Op) {
		for _, t := range a.texts {
			ops = append(ops, f(t)...)
		}
	}
	finds := func() {
		for _, w := range append([]string{"人中", "ab", "aB", "国人中国", "\xe5"}, editWords...) {
			ops = append(ops, Op{Op: "find", G: 1, T: b(w)})
			if prop == "C12" {
				ops = append(ops, Op{Op: "value", G: 1, T: b(w)})
			}
		}
		ops = append(ops, Op{Op: "dump", G: 1}, Op{Op: "stats", G: 1})
	}
	switch prop {
	case "C02", "C03", "C06", "C07", "C09", "C10", "C11", "C20", "C21", "C29":
		ops = append(ops, Op{Op: "calc", G: 1})
		q := map[string]string{"C02": "seg", "C03": "out", "C06": "dagno", "C07": "dagh", "C09": "cutall", "C10": "cutsearch",
			"C11": "search", "C20": "poscut", "C21": "poscut", "C29": "poscut"}[prop]
		texts(func(t string) []Op { return []Op{{Op: q, G: 1, T: b(t), V: len(t)%2 == 0, H: len(t)%3 == 0}} })
	case "C15":
		ops = append(ops, Op{Op: "calc", G: 1})
		texts(func(t string) []Op {
			if noAlnum(t) != t || len([]rune(t)) < 2 {
				return nil
			}
			r := []rune(t)
			return []Op{{Op: "suggest", G: 1, L: [][]byte{b(string(r[:1])), b(string(r[1:]))}}, {Op: "suggest", G: 1, L: [][]byte{b(t)}, H: len(t)%2 == 0}}
		})
	case "C12":
		finds()
	case "C14":
		finds()
		texts(func(t string) []Op {
			return []Op{{Op: "seg", G: 1, T: b(t)}, {Op: "loss", G: 1, Fn: "cutno", T: b(t)}, {Op: "loss", G: 1, Fn: "cuth", T: b(t)},
				{Op: "loss", G: 1, Fn: "cutall", T: b(t)}, {Op: "search", G: 1, T: b(t)}, {Op: "loss", G: 1, Fn: "suggest", T: b(t)}}
		})
	case "C16":
		for gi := 1; gi <= 2; gi++ {
			for _, w := range []string{"国", "人", "b", "", "国人", " b "} {
				ops = append(ops, Op{Op: "isstop", G: gi, T: b(w)})
			}
			ops = append(ops, Op{Op: "stopf", G: gi, L: [][]byte{b("国"), b(""), b("x"), b("人"), b("b"), b("国")}})
		}
	case "C27":
		for _, o := range a.ops {
			if o.Op == "call" {
				ops = append(ops, o)
			}
		}
	default:
		panic(harnessBug)
	}
	return
}
