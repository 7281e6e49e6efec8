package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// base is a session around one segmenter: build, then queries between edits.
func (g *gen) base(kind string, c *Cfg, rounds, per int, query func() []Op) *Session {
	s := &Session{Kind: kind}
	if g.p(15) {
		s.Ops = append(s.Ops, Op{Op: "tolower", V: false})
	}
	s.Ops = append(s.Ops, g.build(1, c)...)
	var last []Op
	for r := 0; r < rounds; r++ {
		if r > 0 {
			for k := 1 + g.Intn(4); k > 0; k-- {
				s.Ops = append(s.Ops, g.edit(1)...)
				if g.p(40) { // the same calls again after one edit
					s.Ops = append(s.Ops, last...)
				}
			}
			if g.p(10) {
				s.Ops = append(s.Ops, Op{Op: "opts", G: 1, C: g.cfg()})
			}
			if g.p(8) {
				s.Ops = append(s.Ops, Op{Op: "tolower", V: g.p(50)})
			}
		}
		for k := 0; k < per; k++ {
			last = query()
			s.Ops = append(s.Ops, last...)
		}
	}
	return s
}

// one text query on segmenter 1
func (g *gen) q(op string) func() []Op {
	return func() []Op { return []Op{{Op: op, G: 1, T: b(g.text()), V: g.p(30), H: g.p(50), By: g.p(25)}} }
}

// the settings that matter for queries: mostly the defaults
func (g *gen) qcfg() *Cfg {
	if g.p(60) {
		return &Cfg{}
	}
	return g.cfg()
}

// a large dictionary and long texts
func (g *gen) big(kind string, nw, nt, texts int, op string) *Session {
	s := &Session{Kind: kind}
	for len(g.words) < nw {
		g.words = append(g.words, g.newWord())
	}
	s.Ops = g.build(1, g.qcfg())
	for k := 0; k < texts; k++ {
		s.Ops = append(s.Ops, Op{Op: op, G: 1, T: b(g.textN(nt/2 + g.Intn(nt))), H: g.p(50)})
	}
	return s
}

// long words: one word of many atoms with all kinds of parts
func (g *gen) longWords(kind, op string) *Session {
	s := &Session{Kind: kind}
	w := g.str(12 + g.Intn(30))
	if g.p(30) {
		w = g.str(60 + g.Intn(90))
	}
	r := []rune(strings.ToValidUTF8(w, "?"))
	g.words = []string{string(r)}
	for k := 0; k < 8; k++ {
		i := g.Intn(len(r))
		j := i + 1 + g.Intn(len(r)-i)
		g.words = append(g.words, string(r[i:j]))
	}
	s.Ops = g.build(1, g.qcfg())
	for k := 0; k < 6; k++ {
		s.Ops = append(s.Ops, Op{Op: op, G: 1, T: b(g.textN(10 + g.Intn(20))), H: g.p(50)})
	}
	return s
}

type maker func(g *gen, n int) *Session

var props = map[string]maker{
	"C01": func(g *gen, n int) *Session {
		switch {
		case n%40 == 7:
			return g.big("big", 60, 300, 3, "seg")
		case n%20 == 3:
			return g.longWords("long", "seg")
		}
		return g.base("seg", g.cfg(), 3, 5, g.q("seg"))
	},
	"C02": func(g *gen, n int) *Session {
		switch {
		case n%40 == 7:
			return g.big("big", 100, 120, 4, "seg")
		case n%12 == 3:
			return g.longWords("long", "seg")
		}
		return g.base("seg", g.qcfg(), 3, 6, g.q("seg"))
	},
	"C03": func(g *gen, n int) *Session {
		return g.base("entry", g.qcfg(), 4, 4, func() []Op {
			return g.q([]string{"seg", "out", "out"}[g.Intn(3)])()
		})
	},
	"C04": func(g *gen, n int) *Session {
		s := &Session{Kind: "atoms", Ops: []Op{{Op: "new", G: 1, C: g.cfg()}}}
		if n%3 != 0 {
			g.alpha = nil
			var names []string
			for k := range groups {
				names = append(names, k)
			}
			sort.Strings(names)
			for k := 0; k < 12; k++ {
				g.alpha = append(g.alpha, g.pick(groups[g.pick(names)]))
			}
			for k := 0; k < 6; k++ { // other characters of one and two bytes, and any others
				g.alpha = append(g.alpha, string(rune(g.Intn(0x100))), string(rune(0x80+g.Intn(0x780))), string(rune(g.Intn(0x3400))))
			}
		}
		for k := 0; k < 12; k++ {
			switch g.Intn(5) {
			case 0:
				s.Ops = append(s.Ops, Op{Op: "opts", G: 1, C: g.cfg()})
			case 1:
				s.Ops = append(s.Ops, Op{Op: "tolower", V: g.p(60)})
			}
			l := g.Intn(20)
			if g.p(5) {
				l = 200
			}
			s.Ops = append(s.Ops, Op{Op: "atoms", G: 1, T: b(g.str(l)), Def: g.p(25)})
		}
		return s
	},
	"C05": genLoss,
	"C06": func(g *gen, n int) *Session {
		switch {
		case n%40 == 7:
			return g.big("big", 100, 100, 4, "dagno")
		case n%12 == 3:
			return g.longWords("long", "dagno")
		}
		return g.base("dag", g.qcfg(), 3, 6, func() []Op { return []Op{{Op: "dagno", G: 1, T: b(g.text()), V: g.p(50)}} })
	},
	"C07": func(g *gen, n int) *Session {
		if n%3 != 0 { // Han runs that are no words
			g.alpha = append(g.alpha, g.some("han", 3)...)
		}
		return g.base("dagh", g.qcfg(), 3, 6, func() []Op {
			o := Op{Op: "dagh", G: 1, T: b(g.text()), V: g.p(30)}
			if g.p(30) {
				o.Sk = g.pick([]string{"an", "dg", "let", "none"})
				o.Ck = g.pick([]string{"", "han", "let", "any", "jp"})
			}
			if g.p(10) {
				return []Op{{Op: "model", G: 1, M: 1 + g.Intn(len(models)-1)}, o}
			}
			return []Op{o}
		})
	},
	"C08": genHmm,
	"C09": func(g *gen, n int) *Session {
		if n%12 == 3 {
			return g.longWords("long", "cutall")
		}
		return g.base("all", g.qcfg(), 4, 5, g.q("cutall"))
	},
	"C10": func(g *gen, n int) *Session {
		if n%8 == 3 {
			return g.longWords("long", "cutsearch")
		}
		return g.base("csearch", g.qcfg(), 4, 5, g.q("cutsearch"))
	},
	"C11": func(g *gen, n int) *Session {
		if n%8 == 3 {
			return g.longWords("long", "search")
		}
		if n%4 == 1 { // nested words
			w := g.str(2)
			g.words = []string{w}
			for k := 0; k < 8; k++ {
				w2 := g.pick(g.words) + g.pick(append(g.words, g.pick(g.alpha)))
				if len([]rune(w2)) < 24 {
					g.words = append(g.words, w2)
				}
			}
		}
		return g.base("search", g.qcfg(), 3, 5, g.q("search"))
	},
	"C12": genMap,
	"C13": genLoad,
	"C14": genLife,
	"C15": genSuggest,
	"C16": genStop,
	"C17": genFilter,
	"C18": genComp,
	"C19": genAnalyze,
	"C20": func(g *gen, n int) *Session { return g.genPos(n) },
	"C21": func(g *gen, n int) *Session { return g.genPos(n) },
	"C22": genTags,
	"C23": genRank,
	"C24": genPar,
	"C25": genModels,
	"C26": genServer,
	"C27": genCalls,
	"C28": genPaths,
	"C29": genPosHmm,
}

// sessions made for each property in the quick and the thorough tier
var counts = map[string][2]int{
	"C01": {260, 2000}, "C02": {300, 2000}, "C03": {280, 2000}, "C04": {360, 2400}, "C05": {400, 2400},
	"C06": {400, 2400}, "C07": {300, 2000}, "C08": {300, 2000}, "C09": {360, 2400}, "C10": {340, 2400},
	"C11": {180, 1800}, "C12": {300, 2400}, "C13": {320, 2400}, "C14": {360, 2400}, "C15": {380, 2400},
	"C16": {380, 2400}, "C17": {320, 2400}, "C18": {360, 2400}, "C19": {380, 2400}, "C20": {340, 2400},
	"C21": {340, 2400}, "C22": {300, 2000}, "C23": {220, 1600}, "C24": {80, 600}, "C25": {90, 800}, "C26": {36, 300}, "C27": {240, 1800}, "C28": {120, 1000}, "C29": {240, 1800},
}

func newGen(seed int64, n int, prop string, thorough bool) *gen {
	h := int64(0)
	for _, c := range prop {
		h = h*31 + int64(c)
	}
	return &gen{Rand: rand.New(rand.NewSource(seed*1000003 + int64(n)*7919 + h)), prop: prop, thorough: thorough}
}

// ---------------------------------------------------------------------
// arbitrary regular expressions
var anyRx = []string{`a*`, ``, `x*|y`, `(a|b)?`, `^`, `$`, `\b`, `(?i)[A-Z]*`, `\p{Han}+`, `\p{Han}*`, `[^a]`, `.`, `(?s).*`, `\s*`,
	`\d+|a*`, `^a`, `a$`, `(?m)^.*$`, `中|国`, `[\p{Han}a-z]+`, `\x00`, `�`, `\d{2}`, `(\d+\.\d+|[a-zA-Z0-9]+)`, `..`, `\B`, `b+`, `国*$`}

func genLoss(g *gen, n int) *Session {
	fns := []string{"cutno", "cuth", "dag", "dagno", "hmm", "hmmpkg", "cutall", "cutsearch"}
	return g.base("loss", g.qcfg(), 2, 8, func() []Op {
		o := Op{Op: "loss", G: 1, Fn: g.pick(fns), T: b(g.text()), H: g.p(50)}
		if o.Fn == "dag" || o.Fn == "hmm" || o.Fn == "hmmpkg" {
			if g.p(60) {
				o.Rx = []string{g.pick(anyRx)}
				if g.p(70) {
					o.Rx = append(o.Rx, g.pick(anyRx))
				}
			}
		}
		if g.p(5) {
			o.T = b(strings.Repeat(g.str(3+g.Intn(40)), 8))
		}
		return []Op{o}
	})
}

// common Chinese text, for the built-in model
var han = []rune("的一是在不了有和人这中大为上个国我以要他时来用们生到作地于出就分对成会可主发年动同工也能下过子说产种面而方后多定行学法所民得经十三之进着等部度家电力里如水化高自二理起小物现实加量都两体制机当使点从业本去把性好应开它合还因由其些然前外天政四日那社义事平形相全表间样与关各重新线内数正心反你明看原又么利比或但质气第向道命此变条只没结解问意建月公无系军很情者最立代想已通并提直题党程展五果料象员革位入常文总次品式活设及管特件长求老头基资边流路级少图山统接知较将组见计别她手角期根论运农指几九区强放决西被干做必战先回则任取据处队南给色光门即保治北造百规热领七海口东导器压志世金增争济阶油思术极交受联什认六共权收证改清己美再采转更单风切打白教速花带安场身车例真务具万每目至达走积示议声报斗完类八离华名确才科张信马节话米整空元况今集温传土许步群广石记需段研界拉林律叫且究观越织装影算低持音众书布复容儿须际商非验连断深难近矿千周委素技备半办青省列习响约支般史感劳便团往酸历市克何除消构府称太准精值号率族维划选标写存候毛亲快效斯院查江型眼王按格养易置派层片始却专状育厂京识适属圆包火住调满县局照参红细引听该铁价严龙飞")

func (g *gen) hanText(n int) string {
	out := make([]rune, n)
	for k := range out {
		out[k] = han[g.Intn(len(han))]
		if g.p(20) {
			out[k] = han[g.Intn(40)]
		}
	}
	return string(out)
}

func genHmm(g *gen, n int) *Session {
	s := &Session{Kind: "hmm", Ops: []Op{{Op: "new", G: 1, C: &Cfg{Nlh: g.p(50)}}}}
	mix := append([]string{}, g.alpha...)
	for k := 0; k < 16; k++ {
		if g.p(20) {
			s.Ops = append(s.Ops, Op{Op: "model", G: g.Intn(2), M: 1 + g.Intn(len(models)-1)})
		}
		if g.p(3) { // making a dictionary loads the built-in model
			s.Ops = append(s.Ops, Op{Op: "new", G: 1, C: &Cfg{Nlh: g.p(50)}}, g.add(1, "add", "中"))
		}
		var t string
		switch g.Intn(6) {
		case 0:
			t = g.text()
		case 1:
			t = g.hanText(1 + g.Intn(4))
		case 2: // numbers and letters between Han runs
			for q := 1 + g.Intn(5); q > 0; q-- {
				t += g.hanText(g.Intn(4)) + g.pick([]string{"1", "1.5", "12.", ".5", "1.2.3", "a1", "3.x", "x3.14y", ",", " ", "", "９", "1..2", "a.b", "é", g.pick(mix)})
			}
		case 3:
			t = g.hanText(30 + g.Intn(40))
			if g.p(8) { // characters that all models know
				r := make([]rune, 100+g.Intn(100))
				for q := range r {
					r[q] = han[g.Intn(100)]
				}
				t = string(r)
			}
		default:
			t = g.hanText(2 + g.Intn(9))
		}
		o := Op{Op: "hmm", G: 1, T: b(t), V: g.p(30)}
		switch g.Intn(8) {
		case 0:
			o.Op, o.M = "hmmmod", 1+g.Intn(len(models)-1)
		case 1:
			if t != "" {
				o.Op, o.T = "vit", b(g.hanText(1+g.Intn(12)))
			}
		case 2, 3:
			o.Sk = g.pick([]string{"an", "dg", "let", "none", "jp", "han"})
			o.Ck = g.pick([]string{"", "han", "let", "any", "jp", "an", "dg", "none"})
			if o.Ck != "" && o.Ck != "han" && len([]rune(t)) > 40 {
				o.T = b(string([]rune(t)[:40]))
			}
		}
		s.Ops = append(s.Ops, o)
	}
	return s
}

var posList []rune

func posChars() []rune {
	if posList == nil {
		for c := range posGold.Chars {
			posList = append(posList, []rune(c)[0])
		}
		sort.Slice(posList, func(i, j int) bool { return posList[i] < posList[j] })
	}
	return posList
}

// words that the route leaves for their characters: seldom ones of characters that
// are frequent words or none
func (g *gen) weakWords() (weak []string, ops []Op) {
	if g.p(40) {
		return
	}
	for k := 1 + g.Intn(3); k > 0; k-- {
		r := []rune(g.hanText(2 + g.Intn(2)))
		if g.p(50) {
			r = append(r, []rune(g.pick([]string{"a", "1", "é", "々"}))...)
		}
		alone := g.p(25)
		for q := range r {
			if !alone && (q == 0 || g.p(40)) {
				ops = append(ops, Op{Op: "add", G: 1, T: b(string(r[q : q+1])), F: 400 + g.Intn(4000), P: b(g.posTag())})
			}
		}
		weak = append(weak, string(r))
		ops = append(ops, Op{Op: "add", G: 1, T: b(string(r)), F: 1 + g.Intn(5), P: b(g.posTag())})
	}
	return
}

// texts with many characters that are no words, for the model of parts of speech
func genPosHmm(g *gen, n int) *Session {
	if n%4 != 0 { // few words over common characters
		for k := 3 + g.Intn(5); k > 0; k-- {
			g.alpha = append(g.alpha, g.hanText(1))
		}
		g.words = nil
		for k := 1 + g.Intn(6); k > 0; k-- {
			g.words = append(g.words, g.newWord())
		}
	}
	lit := []string{"1", "1.5", "12.", ".5", "a", "ab", "a1", "c++", "#1", "_x", "&", "1_2", ",", " ", "\r\n", "９", "é", "龘", "々", "𠮷", "x3.14y"}
	weak, more := g.weakWords()
	return g.base("posdetail", g.qcfg(), 3, 5, func() []Op {
		if len(weak) > 0 && g.p(25) {
			t := ""
			for q := 1 + g.Intn(3); q > 0; q-- {
				t += g.pick([]string{"", "", ",", g.hanText(1)}) + g.pick(weak) + g.pick([]string{"", ",", g.pick(g.words), g.pick(g.words)})
			}
			o := append(more, Op{Op: "poscut", G: 1, T: b(t), V: g.p(50)})
			more = nil
			return o
		}
		t := ""
		switch g.Intn(6) {
		case 0:
			t = g.text()
		case 1:
			t = g.hanText(1 + g.Intn(4))
		case 2, 3:
			for q := 1 + g.Intn(5); q > 0; q-- {
				t += g.hanText(g.Intn(5)) + g.pick([]string{g.pick(lit), g.pick(lit), g.pick(g.words), g.pick(g.words), ""})
			}
		case 4:
			for q := 1 + g.Intn(8); q > 0; q-- {
				t += g.pick([]string{g.pick(g.words), g.hanText(1), g.pick(g.alpha)})
			}
		default:
			t = g.hanText(4 + g.Intn(14))
		}
		if g.p(3) {
			t = g.hanText(30 + g.Intn(50))
		}
		if g.p(35) { // characters from the whole model
			r := []rune(t)
			for k := 1 + g.Intn(3); k > 0 && len(r) > 0; k-- {
				r[g.Intn(len(r))] = posChars()[g.Intn(len(posChars()))]
			}
			t = string(r)
		}
		return []Op{{Op: "poscut", G: 1, T: b(t), V: g.p(50)}}
	})
}

// ---------------------------------------------------------------------
func (g *gen) lookups(gi, n int) (out []Op) {
	for k := 0; k < n; k++ {
		w := g.word()
		switch g.Intn(6) {
		case 0:
			w = strings.ToUpper(w)
		case 1:
			if len(w) > 0 {
				w = w[:g.Intn(len(w)+1)] // also inside a character
			}
		case 2:
			w += g.str(1)
		}
		if g.p(2) {
			w = ""
		}
		o := Op{Op: g.pick([]string{"find", "find", "find", "value", "value", "lookup"}), G: gi, T: b(w), V: g.p(40), H: g.p(30)}
		if o.Op == "lookup" && g.p(70) {
			o.T = b(w + g.str(1+g.Intn(4)))
		}
		out = append(out, o)
	}
	return
}

func genMap(g *gen, n int) *Session {
	s := &Session{Kind: "map", Ops: []Op{{Op: "new", G: 1, C: g.qcfg()}}}
	if n%3 == 0 {
		s.Ops = g.build(1, g.qcfg())
	} else {
		s.Ops = append(s.Ops, g.add(1, "add", g.word()))
	}
	if n%6 == 1 { // few words, many steps
		g.words = g.words[:3]
	}
	if g.p(15) {
		g.words = append(g.words, g.str(30+g.Intn(300)), strings.Repeat(g.pick(g.alpha), 60+g.Intn(300)))
	}
	if g.p(20) {
		g.words = append(g.words, "", "\x00", g.str(1)+"\x00", "\x00"+g.str(1), "a\x00b")
	}
	if g.p(20) {
		s.Ops = append(s.Ops, Op{Op: "tolower", V: false})
	}
	for k := 0; k < 20; k++ {
		if g.p(6) {
			s.Ops = append(s.Ops, Op{Op: "opts", G: 1, C: g.cfg()})
		}
		if g.p(4) {
			s.Ops = append(s.Ops, Op{Op: "tolower", V: g.p(50)})
		}
		s.Ops = append(s.Ops, g.edit(1)...)
		s.Ops = append(s.Ops, g.lookups(1, 3)...)
		if g.p(30) {
			s.Ops = append(s.Ops, Op{Op: "stats", G: 1})
		}
	}
	for _, w := range g.words {
		s.Ops = append(s.Ops, Op{Op: "find", G: 1, T: b(w)}, Op{Op: "value", G: 1, T: b(w)})
	}
	s.Ops = append(s.Ops, Op{Op: "stats", G: 1}, Op{Op: "dump", G: 1})
	return s
}

// ---------------------------------------------------------------------
// loading

type row struct{ w, f, p string }

func (g *gen) row() row {
	r := row{g.word(), fstr(g.freq()), g.posTag()}
	switch g.Intn(12) {
	case 0:
		r.f = g.pick([]string{"1", "0", "-3", "abc", "NaN", "Inf", "-inf", "1e3", "2e0", "+5", "0x10", "1.75", "1.75", "2.0", "3.25", "5n", "", "１", "1e9", "infinity", "16777217", "9999999.25"})
		if r.f == "1e9" {
			r.f = "1e7"
		}
	case 1, 2:
		r.p = ""
	case 3, 4:
		r.f, r.p = "", ""
	}
	return r
}

// a line of the row; sep is the separator ("" for blanks)
func (g *gen) line(r row, sep string) string {
	d := sep + " "
	f := []string{r.w}
	if r.f != "" {
		f = append(f, r.f)
		if r.p != "" {
			f = append(f, r.p)
		}
	}
	return strings.Join(f, d)
}

func genLoad(g *gen, n int) *Session {
	s := &Session{Kind: "load"}
	sep := ""
	if g.p(50) {
		sep = g.pick([]string{",", ";", "，", "||", ":", "\t"})
	}
	c := &Cfg{Sep: sep, Lnf: g.p(45), Al: g.p(8), Nu: g.p(8), An: g.p(8)}
	if g.p(30) {
		c.Mtf = []int{4, 8, 12, 16, 40}[g.Intn(5)]
	}
	if g.p(40) {
		c.Tf = g.pick([]string{"3", "2.5", "1", "0", "x", "100", "7"})
	}
	if g.p(20) {
		s.Ops = append(s.Ops, Op{Op: "tolower", V: false})
	}
	// several sources of rows
	var rows []row
	for k := 2 + g.Intn(10); k > 0; k-- {
		r := g.row()
		if g.p(2) { // longer than any buffer
			switch g.Intn(3) {
			case 0:
				r.w = g.str(1000 + g.Intn(5000))
			case 1:
				r.p = strings.Repeat("v", 4000+g.Intn(1000))
			default:
				r.w = strings.Repeat(g.pick(groups["han"]), 1+g.Intn(3000))
			}
		}
		if !lineWord(r.w) || strings.ContainsAny(r.w, "\r") || (sep != "" && strings.Contains(r.w, sep)) {
			r.w = g.pick(groups["han"]) + g.pick(groups["han"])
		}
		rows = append(rows, r)
	}
	if g.p(30) && len(rows) > 2 { // duplicates with other values
		r := rows[0]
		r.f, r.p = fstr(g.freq()), "dup"
		rows = append(rows, r)
	}
	text := func(rs []row, loose bool) []byte {
		var ls []string
		for _, r := range rs {
			l := g.line(r, sep)
			if loose && sep == "" && g.p(10) {
				l = strings.ReplaceAll(l, " ", g.pick([]string{"  ", "\t", " \t ", "\u3000"}))
			}
			if loose && g.p(5) {
				l = g.pick([]string{" ", "  ", ""}) + l
			}
			if loose && g.p(8) {
				l += g.pick([]string{" ", "  ", " ", "\t", "\u3000", "\u00a0", " \t", "\u0085"})
			}
			if loose && sep != "" && sep != "\t" && g.p(8) {
				l = strings.ReplaceAll(l, sep+" ", sep+" "+g.pick([]string{" ", "\t", "\u3000"}))
			}
			ls = append(ls, l)
			if loose && g.p(10) {
				ls = append(ls, g.pick([]string{"", "", " "}))
			}
		}
		crlf := 0
		if loose {
			crlf = []int{0, 0, 30, 100}[g.Intn(4)]
		}
		t := ""
		for k, l := range ls {
			t += l
			if k < len(ls)-1 || g.p(60) {
				if g.p(crlf) {
					t += "\r"
				}
				t += "\n"
			}
		}
		return b(t)
	}
	hows := []string{"map", "str", "reader", "file", "embed", "read", "names"}
	src := func(gi int, how string, rs []row, loose bool) Op {
		switch how {
		case "map":
			var items []Item
			for _, r := range rs {
				kv := [][2]string{{"text", r.w}}
				if r.f != "" {
					kv = append(kv, [2]string{"freq", r.f})
					if r.p != "" {
						kv = append(kv, [2]string{"pos", r.p})
					}
				}
				if loose && g.p(5) {
					kv = append(kv, [2]string{"other", "1"})
				}
				items = append(items, Item{kv})
			}
			return Op{Op: "load", G: gi, How: "map", Items: items}
		case "file":
			k := g.Intn(len(rs) + 1)
			return Op{Op: "load", G: gi, How: "file", V: g.p(50), Files: []File{{Txt: text(rs[:k], loose)}, {Txt: text(rs[k:], loose)}}}
		case "names":
			if loose {
				return g.names(gi, text(rs, loose))
			}
			o := Op{Op: "load", G: gi, How: "names", V: g.p(50), Files: make([]File, 4)}
			k := g.Intn(4)
			o.Files[k].Txt, o.L = text(rs, false), [][]byte{b([]string{"zh_t", "zh_s", "jp", "@1"}[k])}
			return o
		case "embed":
			if loose && g.p(12) { // only a built-in one
				return Op{Op: "load", G: gi, How: "embeds", L: [][]byte{b(g.pick([]string{"", "zh", "zh_s", "zh_t", "ja"}))}}
			}
			if loose && sep != "," && len(rs) > 1 {
				k := 1 + g.Intn(len(rs)-1)
				l := [][]byte{text(rs[:k], true), text(rs[k:], true)}
				if g.p(40) {
					l = append([][]byte{b(g.pick([]string{"zh", "zh_s", "zh_t"}))}, l...)
				} else if g.p(40) {
					l[0] = b(string(l[0]) + "\nzz" + sep + " 7" + sep + " n" + g.pick([]string{"zh", "zh_s", "zh_t"}))
				}
				if !strings.Contains(string(bytes.Join(l, nil)), ", ") {
					return Op{Op: "load", G: gi, How: "embeds", L: l}
				}
			}
			t := text(rs, loose)
			if strings.Contains(string(t), ", ") && sep != "," || len(t) < 6 {
				how = "str"
			}
			return Op{Op: "load", G: gi, How: how, T: t}
		}
		return Op{Op: "load", G: gi, How: how, T: text(rs, loose)}
	}
	if n%2 == 0 { // the same plain rows by every path
		var gs []int
		for k, h := range hows {
			s.Ops = append(s.Ops, Op{Op: "new", G: k + 1, C: c}, src(k+1, h, rows, false))
			gs = append(gs, k+1)
		}
		for k := range hows {
			s.Ops = append(s.Ops, Op{Op: "stats", G: k + 1}, Op{Op: "dump", G: k + 1})
			for _, r := range rows {
				if g.p(40) {
					s.Ops = append(s.Ops, Op{Op: "find", G: k + 1, T: b(r.w)})
				}
			}
		}
		return s
	}
	// loose sources one after the other
	s.Ops = append(s.Ops, Op{Op: "new", G: 1, C: c})
	for len(rows) > 0 {
		k := 1 + g.Intn(len(rows))
		s.Ops = append(s.Ops, src(1, hows[g.Intn(len(hows))], rows[:k], true))
		rows = rows[k:]
		s.Ops = append(s.Ops, Op{Op: "dump", G: 1}, Op{Op: "stats", G: 1})
		s.Ops = append(s.Ops, g.lookups(1, 4)...)
		if len(rows) == 0 && g.p(30) {
			s.Ops = append(s.Ops, src(1, hows[g.Intn(len(hows))], []row{g.row2(sep), g.row2(sep)}, true), Op{Op: "dump", G: 1})
		}
	}
	return s
}

func (g *gen) row2(sep string) row {
	r := g.row()
	if !lineWord(r.w) || strings.ContainsAny(r.w, "\r") || (sep != "" && strings.Contains(r.w, sep)) {
		r.w = "国人"
	}
	return r
}

// ---------------------------------------------------------------------
// life cycles, from the zero value on
func genLife(g *gen, n int) *Session {
	s := &Session{Kind: "life", Ops: []Op{{Op: "new", G: 1, C: g.qcfg()}}}
	s.Ops[0].C.Nlh = g.p(20)
	for k := 0; k < 22; k++ {
		switch g.Intn(12) {
		case 0, 1:
			s.Ops = append(s.Ops, Op{Op: "empty", G: 1})
		case 2, 3, 4:
			s.Ops = append(s.Ops, g.load(1, []string{g.word(), g.newWord(), g.word()}[:g.Intn(4)])...)
		case 5:
			dir := g.Intn(2)
			fs := []File{{Txt: b(g.pick([]string{"中国 5 n\n", "大学 3\n", ""}))}, {Miss: dir == 0, Dir: dir == 1}, {Txt: b("学生 9 n\n")}}
			s.Ops = append(s.Ops, Op{Op: "load", G: 1, How: "file", Files: fs[g.Intn(2):], V: g.p(50)})
		default:
			s.Ops = append(s.Ops, g.edit(1)...)
		}
		for q := g.Intn(4); q > 0; q-- {
			switch g.Intn(5) {
			case 0:
				s.Ops = append(s.Ops, Op{Op: "seg", G: 1, T: b(g.text())})
			case 1:
				s.Ops = append(s.Ops, Op{Op: "loss", G: 1, Fn: g.pick([]string{"cutno", "cuth", "dag", "dagno", "cutall", "cutsearch", "suggest", "find", "value"}), T: b(g.text())})
			case 2:
				s.Ops = append(s.Ops, Op{Op: "stats", G: 1})
			case 3:
				o := Op{Op: g.pick([]string{"out", "search", "cutall", "cutsearch", "analyze", "poscut"}), G: 1, T: b(g.text())}
				if o.Op == "analyze" {
					o.L = [][]byte{b(g.word()), b(g.word())}
				}
				s.Ops = append(s.Ops, o)
			default:
				s.Ops = append(s.Ops, g.lookups(1, 2)...)
			}
		}
	}
	for _, w := range g.words {
		s.Ops = append(s.Ops, Op{Op: "find", G: 1, T: b(w)})
	}
	return s
}

// ---------------------------------------------------------------------
func noAlnum(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 128 && (r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return '人'
		}
		if r == 'K' { // lowers to k
			return '人'
		}
		return r
	}, s)
}

func genSuggest(g *gen, n int) *Session {
	return g.base("suggest", &Cfg{}, 3, 4, func() []Op {
		if g.p(40) {
			var l [][]byte
			for k := 2 + g.Intn(3); k > 0; k-- {
				l = append(l, b(g.word()))
			}
			return []Op{{Op: "suggest", G: 1, L: l}}
		}
		t := g.text()
		if g.p(80) {
			t = noAlnum(t)
		}
		join := t == noAlnum(t) && t == strings.ToLower(t) && len([]rune(t)) >= 2 && strings.ToValidUTF8(t, "") == t && !strings.Contains(t, "\x00")
		r := []rune(t)
		if len(r) > 10 {
			t = string(r[:10])
		}
		if t == "" {
			t, join = "中人", true
		}
		return []Op{{Op: "suggest", G: 1, L: [][]byte{b(t)}, H: join && g.p(70)}}
	})
}

// ---------------------------------------------------------------------
func genStop(g *gen, n int) *Session {
	s := &Session{Kind: "stop", Ops: []Op{{Op: "new", G: 1, C: &Cfg{}}, {Op: "new", G: 2, C: &Cfg{}}}}
	if g.p(50) {
		s.Ops = append(s.Ops, g.load(1, g.words)...)
	}
	g.words = append(g.words, "", " ", "a b")
	file := func() []byte {
		nl := g.pick([]string{"\n", "\n", "\r\n"})
		t := ""
		for k := g.Intn(5); k > 0; k-- {
			w := g.word()
			if strings.ContainsAny(w, "\n\r") || strings.Contains(w, ", ") {
				w = "人民"
			}
			t += g.pick([]string{"", "", "", " "}) + w + g.pick([]string{nl, nl, nl, nl + nl, " " + nl})
		}
		if g.p(30) {
			t = strings.TrimRight(t, "\r\n")
		}
		return b(t)
	}
	gs := 2
	if n%3 == 0 {
		gs = 3
		s.Ops = append(s.Ops, Op{Op: "newsw", G: 3})
		g.words = append(g.words, "the", "is", "with")
	}
	for k := 0; k < 20; k++ {
		gi := 1 + g.Intn(2)
		if gs == 3 && g.p(35) { // the stop words for the tags
			switch g.Intn(4) {
			case 0:
				s.Ops = append(s.Ops, Op{Op: "stopfile", G: 3, Files: []File{{Txt: file()}}})
			case 1:
				s.Ops = append(s.Ops, Op{Op: "rmstop", G: 3, T: b(g.word())})
			default:
				s.Ops = append(s.Ops, Op{Op: "addstop", G: 3, T: b(g.word())})
			}
		}
		switch g.Intn(9) {
		case 0, 1:
			s.Ops = append(s.Ops, Op{Op: "addstop", G: gi, T: b(g.word())})
		case 2:
			var l [][]byte
			for q := g.Intn(4); q > 0; q-- {
				l = append(l, b(g.word()))
			}
			s.Ops = append(s.Ops, Op{Op: "stoparr", G: gi, L: l, V: g.p(50)})
		case 3:
			t := file()
			if g.p(20) {
				l := [][]byte{t, file()}
				if g.p(15) {
					l = nil
				} else if g.p(40) {
					l = append([][]byte{b("zh")}, l...)
				} else if g.p(40) {
					l[0] = b(string(l[0]) + "zh")
				}
				s.Ops = append(s.Ops, Op{Op: "stopembeds", G: gi, L: l})
				break
			}
			s.Ops = append(s.Ops, Op{Op: "stopstr", G: gi, T: t, V: g.p(30) && !strings.Contains(string(t), ", ") && len(t) > 0})
		case 4:
			fs := []File{{Txt: file()}}
			if g.p(40) {
				fs = append(fs, File{Txt: file(), Miss: g.p(30), Dir: g.p(20)})
			}
			if o := (Op{Op: "stopfile", G: gi, Files: fs}); g.p(60) {
				s.Ops = append(s.Ops, o)
				break
			}
			// by names; the first two are at the paths of the built-in lists
			o := Op{Op: "stopfile", G: gi, How: "stops", V: true, Def: g.p(30), Files: []File{{Txt: file(), Miss: g.p(5)}, {Txt: file(), Miss: g.p(5)}, {Txt: file()}, {Txt: file()}}}
			o.L = [][]byte{[]byte(g.pick([]string{"zh", "zh", "@1", "@2"}))}
			for g.p(50) {
				o.L = append(o.L, []byte(g.pick([]string{"@1", "@2", "@2", "zhx"})))
			}
			s.Ops = append(s.Ops, o)
		case 5, 6:
			s.Ops = append(s.Ops, Op{Op: "rmstop", G: gi, T: b(g.word())})
		case 7:
			if g.p(50) {
				s.Ops = append(s.Ops, Op{Op: "emptystop", G: gi})
			}
		}
		for q := 2; q > 0; q-- {
			w := g.word()
			if g.p(10) {
				w = strings.ToUpper(w)
			}
			s.Ops = append(s.Ops, Op{Op: "isstop", G: 1 + g.Intn(gs), T: b(w)})
		}
		if g.p(40) {
			var l [][]byte
			for q := g.Intn(7); q > 0; q-- {
				l = append(l, b(g.word()))
			}
			s.Ops = append(s.Ops, Op{Op: "stopf", G: 1 + g.Intn(2), L: l})
		}
		if g.p(30) {
			s.Ops = append(s.Ops, Op{Op: "comp", G: 1, Fn: "cutstop", T: b(g.text()), H: g.p(50), Def: g.p(30)})
		}
	}
	return s
}

// ---------------------------------------------------------------------
func (g *gen) html() string {
	t := ""
	for k := g.Intn(8); k >= 0; k-- {
		t += g.pick([]string{"<p>", "</p>", "<br/>", "<a href=\"x\">", "<", ">", "<>", "< >", "<b", "a>b", "<-->", "<!-- x -->", "<i|>", "<中>", "<a\nb>",
			"<<p>>", "<=>", "<_>", "<a b=>", "x", "中国", " ", g.word(), "1.5", "<p >"})
	}
	return t
}

func (g *gen) mixed() string {
	var names []string
	for k := range groups {
		names = append(names, k)
	}
	sort.Strings(names)
	t := ""
	for k := g.Intn(16); k > 0; k-- {
		if g.p(12) {
			if r := rune(g.Intn(0x1ffff)); r < 0xd800 || r > 0xdfff {
				t += string(r)
			}
		} else if g.p(40) {
			t += g.word()
		} else {
			t += g.pick(groups[g.pick(names)])
		}
	}
	return t
}

func (g *gen) textPos() []TextPos {
	var l []TextPos
	for k := g.Intn(8); k > 0; k-- {
		l = append(l, TextPos{b(g.item()), b(g.posTag())})
	}
	return l
}

// an item of a list to trim
func (g *gen) item() string {
	switch g.Intn(6) {
	case 0:
		return g.pick([]string{"", " ", ",", ", ", ",a", " a", "a,", ",,", "+", "+a", "，。", "\u3000", "$", "　中", "a b", "\xff", "!\xff", "€5", "\u200d"})
	case 1:
		return g.mixed()
	}
	return g.word()
}

func (g *gen) items() [][]byte {
	l := [][]byte{}
	for k := g.Intn(8); k > 0; k-- {
		l = append(l, b(g.item()))
	}
	return l
}

func (g *gen) posList() [][]byte {
	l := [][]byte{}
	for k := g.Intn(4); k > 0; k-- {
		l = append(l, b(g.posTag()))
	}
	return l
}

func genFilter(g *gen, n int) *Session {
	c := g.qcfg()
	c.Ns = g.p(40)
	s := &Session{Kind: "filter", Ops: []Op{{Op: "new", G: 1, C: c}}}
	for k := g.Intn(6); k > 0; k-- {
		s.Ops = append(s.Ops, Op{Op: "addstop", G: 1, T: b(g.item())})
	}
	for k := 0; k < 24; k++ {
		switch g.Intn(8) {
		case 0, 1:
			s.Ops = append(s.Ops, Op{Op: "filter", Fn: g.pick([]string{"symbol", "emoji", "rangetext", "splitnums"}), T: b(g.mixed())})
		case 2:
			s.Ops = append(s.Ops, Op{Op: "filter", Fn: "lang", T: b(g.mixed()), Lang: g.pick([]string{"Han", "Latin", "Hiragana", "Common", "Klingon", "", "han", "Cyrillic", "Inherited", "Nd", "P", "L", "Letter", "Digit", "latin", "HAN"})})
		case 3:
			s.Ops = append(s.Ops, Op{Op: "filter", Fn: "html", T: b(g.html())})
		case 4:
			t := g.mixed()
			if g.p(50) {
				t = g.pick([]string{"1a2", "12", "a", "", "１2", "1.5e3", "x9y", "中1国22"}) + t
			}
			s.Ops = append(s.Ops, Op{Op: "filterl", Fn: g.pick([]string{"splitnum", "range"}), T: b(t)})
		case 5:
			s.Ops = append(s.Ops, Op{Op: "trim", G: 1, Fn: g.pick([]string{"trim", "trimsymbol", "trimpunct"}), L: g.items()})
		default:
			s.Ops = append(s.Ops, Op{Op: "trim", G: 1, Fn: g.pick([]string{"trimpos", "trimpospunct", "trimwithpos", "ptrim", "ptrimpunct", "ptrimwithpos"}), LP: g.textPos(), PS: g.posList()})
		}
	}
	return s
}

func genComp(g *gen, n int) *Session {
	c := g.qcfg()
	c.Ns, c.Skp = g.p(30), g.p(40)
	s := g.base("comp", c, 2, 10, func() []Op {
		o := Op{Op: "comp", G: 1, T: b(g.text()), H: g.p(50), Def: g.p(30), V: g.p(40), PS: g.posList()}
		o.Fn = g.pick([]string{"cutstop", "cuttrim", "cuthtml", "cuthtmls", "cuturl", "cuturls", "postrim", "postrimarr", "postrimstr", "cutstr", "posstr"})
		switch o.Fn {
		case "cuthtml", "cuthtmls":
			if g.p(70) {
				o.T = b(g.html())
			}
		case "cuturl", "cuturls":
			if g.p(60) {
				o.T = b(g.pick([]string{"https://a.com/x1?y=22", "12中国3a", "a1b2", "www.x9.cn", "1 2", ""}) + g.text())
			}
		case "cutstr":
			if o.L = g.items(); g.p(5) {
				o.L = nil
			}
			o.Sep = b(g.pick([]string{"", " ", ",", "/", "、", "--", g.str(1)}))
		case "posstr":
			o.LP, o.Sep = g.textPos(), b(g.pick([]string{"", " ", ",", "/", "、", "--", g.str(1)}))
		default:
			if g.p(40) {
				o.T = b(g.mixed())
			}
		}
		return []Op{o}
	})
	var ops []Op
	for k, o := range s.Ops {
		ops = append(ops, o)
		if o.Op == "new" || (k > 3 && g.p(6)) {
			for q := 1 + g.Intn(4); q > 0; q-- {
				ops = append(ops, Op{Op: "addstop", G: 1, T: b(g.word())})
			}
		}
	}
	s.Ops = ops
	return s
}

// ---------------------------------------------------------------------
func genAnalyze(g *gen, n int) *Session {
	return g.base("analyze", &Cfg{}, 2, 8, func() []Op {
		var l [][]byte
		for k := g.Intn(6); k > 0; k-- {
			w := g.word()
			if g.p(8) {
				w = ""
			}
			l = append(l, b(w))
			if g.p(20) {
				l = append(l, b(w))
			}
		}
		t := ""
		switch g.Intn(4) {
		case 0:
			for _, w := range l {
				t += string(w)
			}
		case 1, 2:
			t = g.text()
		}
		if g.p(40) {
			return []Op{{Op: "occs", T: b(t), L: l}}
		}
		o := Op{Op: "analyze", G: 1, T: b(t), L: l, By: g.p(40)}
		o.V = !o.By && t != "" && g.p(30)
		return []Op{o}
	})
}

func (g *gen) genPos(n int) *Session {
	if g.p(50) {
		g.alpha = append(g.alpha, g.some("pun", 2)...)
	}
	if g.p(40) {
		g.alpha = append(g.alpha, g.some("ws", 2)...)
	}
	if g.p(15) { // a segmenter that loads its own dictionary
		o := g.loadOps(1, g.words, "file")[0]
		return g.base("pos", &Cfg{}, 1, 0, nil).with(o, g.q("poscut"), 5)
	}
	weak, more := g.weakWords()
	q := g.q("poscut")
	return g.base("pos", &Cfg{}, 3, 5, func() []Op {
		o := q()
		if len(weak) > 0 && g.p(30) {
			o[0].T = b(g.pick([]string{"", g.word(), ","}) + g.pick(weak) + g.pick([]string{"", ",", g.word(), g.word()}))
			o, more = append(more, o...), nil
		}
		return o
	})
}

// with: the session starts over with a load of files, and the queries load them too
func (s *Session) with(load Op, query func() []Op, n int) *Session {
	s.Ops = []Op{{Op: "new", G: 1, C: &Cfg{}}, load}
	for k := 0; k < n; k++ {
		for _, o := range query() {
			o.Files = load.Files
			s.Ops = append(s.Ops, o)
		}
	}
	return s
}

// ---------------------------------------------------------------------
func genTags(g *gen, n int) *Session {
	s := &Session{Kind: "tags"}
	if g.p(50) {
		g.alpha = append(g.alpha, g.some("low", 2)...)
		g.alpha = append(g.alpha, " ")
	}
	s.Ops = g.build(1, &Cfg{})
	if g.p(15) {
		o := g.loadOps(1, g.words, "file")[0]
		s.Ops = []Op{{Op: "new", G: 1, C: &Cfg{}}, o, {Op: "newtags", G: 1, G2: 3, Files: o.Files}}
	} else {
		s.Ops = append(s.Ops, Op{Op: "newtags", G: 1, G2: 3})
	}
	g.freqs = "small"
	switch g.Intn(4) {
	case 0, 1:
		s.Ops = append(s.Ops, Op{Op: "tagidf", G: 4, G2: 3, How: "new"})
	default:
		t := ""
		for _, w := range g.words {
			if lineWord(w) && g.p(60) {
				t += w + " " + fstr(g.freq()) + g.pick([]string{"", " n"}) + "\n"
			}
		}
		s.Ops = append(s.Ops, Op{Op: "tagidf", G: 4, G2: 3, How: g.pick([]string{"str", "file"}), T: b(t)})
	}
	for k := 0; k < 8; k++ {
		switch g.Intn(5) {
		case 0, 1, 2:
			for q := g.Intn(4); q > 0; q-- {
				o := g.add(4, "idfadd", g.word())
				o.F = 1 + g.Intn(60)
				s.Ops = append(s.Ops, o)
			}
		case 3:
			if g.p(40) {
				s.Ops = append(s.Ops, Op{Op: "tagstop", G2: 3, T: b(strings.ReplaceAll(g.word(), "\n", "") + "\n" + strings.ReplaceAll(g.word(), "\n", "") + "\n")})
			}
		}
		s.Ops = append(s.Ops, Op{Op: "find", G: 4, T: b(g.word())}, Op{Op: "stats", G: 4})
		if g.p(30) {
			s.Ops = append(s.Ops, Op{Op: "find", G: 4, T: b("zz")})
		}
		t := g.textN(2 + g.Intn(30))
		if g.p(30) {
			t += " the with " + t
		}
		s.Ops = append(s.Ops, Op{Op: "tags", G: 1, G2: 3, G3: 4, T: b(t), K: []int{0, 1, 2, 3, 5, 20}[g.Intn(6)]})
	}
	return s
}

func genRank(g *gen, n int) *Session {
	s := &Session{Kind: "rank"}
	for len(g.words) < 10 {
		g.words = append(g.words, g.newWord())
	}
	many := n%10 == 4
	for k := 25 + g.Intn(40); many && k > 0; k-- {
		g.words = append(g.words, g.hanText(2))
	}
	var items []Item
	for _, w := range g.words {
		items = append(items, Item{[][2]string{{"text", w}, {"freq", fstr(g.freq())}, {"pos", g.pick([]string{"n", "n", "v", "ns", "vn", "x", "u"})}}})
	}
	s.Ops = []Op{{Op: "new", G: 1, C: &Cfg{}}, {Op: "load", G: 1, How: "map", Items: items}}
	var fs []File
	if g.p(20) {
		o := g.loadOps(1, g.words, "file")[0]
		fs = o.Files
		s.Ops[1] = o
	}
	for k := 0; k < 6; k++ {
		if g.p(20) && fs == nil {
			s.Ops = append(s.Ops, g.edit(1)...)
		}
		o := Op{Op: "rank", G: 1, T: b(g.textN(4 + g.Intn(26))), K: []int{0, 1, 3, 5, 20, -1}[g.Intn(6)], Def: g.p(40), Files: fs}
		if many && k%3 == 0 {
			o.T, o.K = b(g.textN(90+g.Intn(120))), 0
		}
		if !o.Def {
			for _, p := range []string{"n", "v", "ns", "x", "u", "eng", "m"} {
				if g.p(50) {
					o.PS = append(o.PS, b(p))
				}
			}
		}
		s.Ops = append(s.Ops, o)
	}
	return s
}

// ---------------------------------------------------------------------
// the same calls again after other queries and edits of other segmenters
func genCalls(g *gen, n int) *Session {
	s := &Session{Kind: "calls"}
	if n%3 == 0 { // both read the same files
		c := g.qcfg()
		ops := g.build(1, c)
		if g.p(60) {
			l := g.loadOps(1, g.words, "file")[0]
			if g.p(50) {
				l.Files = []File{{Txt: append(append(append([]byte{}, l.Files[0].Txt...), '\n'), l.Files[1].Txt...)}}
			}
			ops = []Op{{Op: "new", G: 1, C: c}, l}
		}
		if g.p(60) {
			ops = append(ops, Op{Op: "stopfile", G: 1, Files: []File{{Txt: b(strings.Join(g.words[:len(g.words)/2], "\n"))}}})
		}
		s.Ops = append(s.Ops, ops...)
		for _, o := range ops {
			o.G = 2
			s.Ops = append(s.Ops, o)
		}
	} else {
		s.Ops = append(s.Ops, g.build(1, g.qcfg())...)
		s.Ops = append(s.Ops, g.build(2, g.qcfg())...)
	}
	for _, gi := range []int{1, 2} {
		for k := g.Intn(3); k > 0; k-- {
			s.Ops = append(s.Ops, Op{Op: "addstop", G: gi, T: b(g.word())})
		}
	}
	type call struct {
		gi    int
		fn, t string
	}
	var cs []call
	for k := 0; k < 12; k++ {
		t := g.text()
		if g.p(25) {
			t = g.word()
		}
		cs = append(cs, call{1 + g.Intn(2), g.pick(callFns), t})
	}
	for r := 0; r < 3; r++ {
		for _, k := range g.Perm(len(cs)) {
			c := cs[k]
			s.Ops = append(s.Ops, Op{Op: "call", G: c.gi, Fn: c.fn, T: b(c.t)})
		}
		switch g.Intn(5) { // segmenter 3 and then 2 change
		case 0:
			s.Ops = append(s.Ops, Op{Op: "new", G: 3, C: &Cfg{}})
			s.Ops = append(s.Ops, g.load(3, g.words)...)
		case 1:
			s.Ops = append(s.Ops, g.edit(2)...)
		case 2:
			s.Ops = append(s.Ops, Op{Op: "addstop", G: 2, T: b(g.word())}, Op{Op: "rmstop", G: 2, T: b(g.word())})
		case 3:
			s.Ops = append(s.Ops, Op{Op: g.pick([]string{"empty", "emptystop", "calc", "empty"}), G: 2})
			if g.p(50) {
				s.Ops = append(s.Ops, Op{Op: "new", G: 3, C: &Cfg{}})
				s.Ops = append(s.Ops, g.load(3, g.words)...)
			}
		case 4:
			s.Ops = append(s.Ops, g.edit(2)...)
			s.Ops = append(s.Ops, g.edit(2)...)
		}
	}
	return s
}

// ---------------------------------------------------------------------
func genPaths(g *gen, n int) *Session {
	s := &Session{Kind: "paths"}
	for k := 0; k < 20; k++ {
		var l []string
		for q := 1 + g.Intn(5); q > 0; q-- {
			l = append(l, g.pick([]string{"zh", "zh", "zh_s", "zh_t", "ja", "jp", "en", "ko", "ti", "", " ", "a.txt", "/x/中.txt", "zhx", "ZH", "my dict.txt", "./d", "zh "}))
		}
		s.Ops = append(s.Ops, Op{Op: "paths", T: b(strings.Join(l, g.pick([]string{", ", ",", ", ", ","})))})
	}
	return s
}

var _ = fmt.Sprint
