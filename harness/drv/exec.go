package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
	"github.com/go-ego/gse/hmm/segment"
)

type exec struct {
	segs  map[int]*gse.Segmenter
	idfs  map[int]*idf.Idf
	tags  map[int]*idf.TagExtracter
	stops map[int]*idf.StopWord
	ev    []M
	calls []M // of goroutines
	cur   *Op
	dir   string
	nf    int
	buf   []byte // the caller's buffer, the same for every call

	kept   map[int]*kept
	fileOf map[string]string // file names by contents
	held   []held
}

// what works with a segmenter, kept while the segmenter has the same dictionary
type kept struct {
	ps   pos.Segmenter
	tr   idf.TextRanker
	dict *gse.Dictionary
}

func (x *exec) withSeg(g int) *kept {
	k, s := x.kept[g], x.segs[g]
	if k == nil || k.dict != s.Dict {
		k = &kept{dict: s.Dict}
		k.ps.WithGse(*s)
		k.tr.WithGse(*s)
		x.kept[g] = k
	}
	return k
}

func newExec(dir string) *exec {
	gse.ToLower = true
	hmm.LoadModel()
	return &exec{segs: map[int]*gse.Segmenter{}, idfs: map[int]*idf.Idf{}, tags: map[int]*idf.TagExtracter{}, dir: dir, stops: map[int]*idf.StopWord{},
		fileOf: map[string]string{}, kept: map[int]*kept{}}
}

// bytes is the text in the caller's buffer, which the next call takes again
func (x *exec) bytes(t string) []byte {
	x.buf = append(x.buf[:0], t...)
	return x.buf[:len(t):len(t)]
}

func (x *exec) emit(m M) { x.ev = append(x.ev, m) }

// run one call; false if it panicked
func (x *exec) run(op *Op) (ok bool) {
	x.cur = op
	defer func() {
		if r := recover(); r != nil {
			if fmt.Sprint(r) == harnessBug {
				panic(r)
			}
			x.emit(M{"op": "panic", "call": op.Op + " " + op.Fn + op.How, "msg": fmt.Sprint(r)})
			ok = false
		}
	}()
	switch op.Op {
	case "par":
		return x.parCalls(op)
	case "parmodel":
		return x.parModel(op)
	case "server":
		return x.server(op)
	}
	x.do(op)
	return true
}

const harnessBug = "harness: bad operation"

// quarters of a frequency; -99 if it is no number of quarters
func q4(f float64) int {
	v := f * 4
	if math.IsNaN(v) || v != math.Trunc(v) || v > 2e9 || v < -2e9 {
		return -99
	}
	return int(v)
}

func (c *Cfg) event() M {
	tf := 0
	if c.Tf != "" {
		tf = -1
		if v, err := strconv.ParseFloat(c.Tf, 64); err == nil && q4(v) > 0 {
			tf = q4(v)
		}
	}
	return M{"al": c.Al, "nu": c.Nu, "an": c.An, "lnf": c.Lnf, "mtf": c.Mtf, "tf": tf, "sep": sids(c.Sep),
		"ns": c.Ns, "skp": c.Skp, "nlh": c.Nlh}
}

func (x *exec) file(f File) string {
	if f.Miss {
		return filepath.Join(x.dir, "none.txt")
	}
	if f.Dir {
		name := filepath.Join(x.dir, "dir.txt")
		if os.MkdirAll(name, 0o755) != nil {
			panic(harnessBug)
		}
		return name
	}
	// the same contents are the same file; a new one takes the name of an old one
	if n, ok := x.fileOf[string(f.Txt)]; ok {
		return n
	}
	x.nf++
	name := filepath.Join(x.dir, fmt.Sprintf("f%d.txt", x.nf%7))
	for t, n := range x.fileOf {
		if n == name {
			delete(x.fileOf, t)
		}
	}
	x.fileOf[string(f.Txt)] = name
	if err := os.WriteFile(name, f.Txt, 0o644); err != nil {
		panic(harnessBug)
	}
	return name
}

func (x *exec) files(fs []File) (names []string, ev []M) {
	ev = []M{}
	for _, f := range fs {
		names = append(names, x.file(f))
		ev = append(ev, M{"ok": !f.Miss && !f.Dir, "txt": ids(f.Txt)})
	}
	return
}

var numSplit = regexp.MustCompile(`[\s\v\p{Z}\x{0085}]+`)

// what the frequency texts of these sources mean
func nums(sep string, texts ...string) []M {
	out := []M{}
	seen := map[string]bool{}
	add := func(t string) {
		t = strings.TrimSpace(t)
		if seen[t] {
			return
		}
		seen[t] = true
		v, err := strconv.ParseFloat(t, 64)
		if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
			return
		}
		n := int(math.Floor(math.Min(v*4, 2e9)))
		if v < 0 {
			n = -1
		}
		out = append(out, M{"t": sids(t), "v": n})
	}
	for _, t := range texts {
		add(t)
		for _, f := range numSplit.Split(t, -1) {
			add(f)
		}
		for _, l := range strings.Split(t, "\n") {
			for _, f := range strings.Split(l, sep+" ") {
				add(f)
			}
		}
	}
	return out
}

func strs(l [][]byte) []string {
	out := make([]string, 0, len(l))
	for _, v := range l {
		out = append(out, string(v))
	}
	return out
}

func (x *exec) pos(op *Op) []string {
	if op.NoPos {
		return nil
	}
	return []string{string(op.P)}
}

func spEvent(l []gse.SegPos) []M {
	out := []M{}
	for _, v := range l {
		out = append(out, M{"t": sids(v.Text), "p": sids(v.Pos)})
	}
	return out
}

func toSP(l []TextPos) []gse.SegPos {
	out := []gse.SegPos{}
	for _, v := range l {
		out = append(out, gse.SegPos{Text: string(v.T), Pos: string(v.P)})
	}
	return out
}

func (x *exec) segEvent(t []byte, segs []gse.Segment) []M {
	out := []M{}
	for k := range segs {
		s := &segs[k]
		tk := s.Token()
		txt := tk.Text()
		qs := []M{}
		cand := []string{txt}
		if len(x.ev)%5 == 0 {
			cand = append(cand, txt+"a", "", strings.ToUpper(txt))
			if len(txt) > 0 {
				cand = append(cand, txt[:len(txt)-1], txt[:len(txt)-1]+"z", "\x00"+txt[1:])
			}
		}
		for _, c := range cand {
			qs = append(qs, M{"t": sids(c), "b": tk.Equals(c)})
		}
		out = append(out, M{"t": sids(txt), "s": s.Start(), "e": s.End(), "p": sids(tk.Pos()), "f": q4(tk.Freq()), "q": qs})
	}
	return out
}

func tree(tk *gse.Token, depth int) M {
	kids := []M{}
	if depth < 40 {
		for _, s := range tk.Segments() {
			if s == nil {
				continue
			}
			kids = append(kids, tree(s.Token(), depth+1))
		}
	}
	return M{"t": sids(tk.Text()), "p": sids(tk.Pos()), "f": q4(tk.Freq()), "k": kids}
}

func plain(segs []gse.Segment) []M {
	out := []M{}
	for k := range segs {
		s := &segs[k]
		out = append(out, M{"t": sids(s.Token().Text()), "s": s.Start(), "e": s.End()})
	}
	return out
}

// classes of user regular expressions
var classRx = map[string]*regexp.Regexp{
	"han":  regexp.MustCompile(`\p{Han}+`),
	"an":   regexp.MustCompile(`[a-zA-Z0-9]+`),
	"dg":   regexp.MustCompile(`\d+`),
	"let":  regexp.MustCompile(`\p{L}+`),
	"jp":   regexp.MustCompile(`[\p{Hiragana}\p{Katakana}]+`),
	"any":  regexp.MustCompile(`(?s).+`),
	"none": regexp.MustCompile(`[^\x00-\x{10FFFF}]`),
}

func regs(op *Op) (out []*regexp.Regexp) {
	if len(op.Rx) > 0 {
		for _, r := range op.Rx {
			out = append(out, regexp.MustCompile(r))
		}
		return
	}
	if op.Sk == "" || op.Sk == "std" {
		return nil
	}
	out = append(out, classRx[op.Sk])
	if op.Ck != "" && op.Ck != "han" {
		out = append(out, classRx[op.Ck])
	}
	return
}

func (x *exec) err(m M, e error) {
	m["err"] = e != nil
	x.emit(m)
}

func (x *exec) load(op *Op) {
	s := x.segs[op.G]
	m := M{"op": "load", "g": op.G, "how": op.How, "nums": []M{}}
	switch op.How {
	case "map":
		var dict []map[string]string
		items := []M{}
		var all []string
		for _, it := range op.Items {
			d := map[string]string{}
			for _, kv := range it.KV {
				d[kv[0]] = kv[1]
			}
			dict = append(dict, d)
			items = append(items, M{"n": len(d), "t": sids(d["text"]), "ft": sids(d["freq"]), "p": sids(d["pos"])})
			all = append(all, d["freq"])
		}
		m["items"] = items
		m["nums"] = numsExact(all)
		x.err(m, s.LoadDictMap(dict))
	case "str", "embed", "newembed":
		m["how"] = "str"
		m["txt"] = ids(op.T)
		m["nums"] = nums(s.DictSep, string(op.T))
		if op.How == "embed" {
			x.err(m, s.LoadDictEmbed(string(op.T)))
		} else {
			x.err(m, s.LoadDictStr(string(op.T)))
		}
	case "reader":
		if op.V { // it gives whole lines and then fails
			txt := op.T[:bytes.LastIndexByte(op.T, '\n')+1]
			m["txt"], m["nums"], m["bad"] = ids(txt), nums(s.DictSep, string(txt)), true
			x.err(m, s.Reader(bufio.NewReader(&failing{txt})))
			return
		}
		m["txt"] = ids(op.T)
		m["nums"] = nums(s.DictSep, string(op.T))
		x.err(m, s.Reader(bufio.NewReader(bytes.NewReader(op.T))))
	case "read":
		m["how"] = "reader"
		m["txt"] = ids(op.T)
		m["nums"] = nums(s.DictSep, string(op.T))
		x.err(m, s.Read(x.file(File{Txt: op.T})))
	case "real":
		if !loadReal() {
			panic(harnessBug)
		}
		items, ft := realItems(op.L)
		m["items"], m["nums"], m["tot"] = items, numsExact(ft), realDict.tot
		if op.V {
			s.DictPath = "/repo/gse.go"
			x.err(m, s.LoadDict("zh_t"))
		} else {
			x.err(m, s.LoadDict(realPath))
		}
	case "embeds": // several sources in one string; built-in ones are empty here
		sep := ", "
		txt := strings.Join(strs(op.L), sep)
		var e error
		if txt == "" {
			e = s.LoadDictEmbed()
		} else {
			e = s.LoadDictEmbed(txt)
		}
		for k, t := range strings.Split(txt, sep) {
			if k == 0 && (t == "zh" || t == "zh_s" || t == "zh_t") || txt == "ja" {
				t = ""
			}
			x.err(M{"op": "load", "g": op.G, "how": "str", "txt": sids(t), "nums": nums(s.DictSep, t)}, e)
		}
	case "names":
		names, all := x.lib(op, s, m, []string{"dict/zh/t_1.txt", "dict/zh/s_1.txt", "dict/jp/dict.txt"}, []string{"zht", "zhs", "jp"})
		m["nums"] = nums(s.DictSep, all...)
		if op.Def {
			x.err(m, s.LoadDict())
		} else {
			x.err(m, s.LoadDict(names))
		}
	case "file":
		names, fe := x.files(op.Files)
		m["files"] = fe
		var all []string
		for _, f := range op.Files {
			all = append(all, string(f.Txt))
		}
		m["nums"] = nums(s.DictSep, all...)
		sep := ","
		if op.V {
			sep = ", "
		}
		if op.By && s.Dict != nil { // by way of what works with it
			x.err(m, x.withSeg(op.G).ps.LoadDict(strings.Join(names, sep)))
			return
		}
		x.err(m, s.LoadDict(strings.Join(names, sep)))
	default:
		panic(harnessBug)
	}
}

// failing is a reader that fails after its text.
type failing struct{ txt []byte }

func (f *failing) Read(p []byte) (int, error) {
	n := copy(p, f.txt)
	if f.txt = f.txt[n:]; n == 0 {
		return 0, errors.New("it fails")
	}
	return n, nil
}

// lib makes a directory with dictionaries: the first files stand at the paths of the
// built-in ones, the others are named @1, @2 ... in the list of names.
func (x *exec) lib(op *Op, s *gse.Segmenter, m M, rel, keys []string) (string, []string) {
	root, err := os.MkdirTemp(x.dir, "l")
	if err != nil || x.dir == "" {
		panic(harnessBug)
	}
	s.DictPath = filepath.Join(root, "gse.go")
	lib, all := []M{}, []string{}
	put := func(name string, f File) {
		if f.Miss {
			return
		}
		if f.Dir {
			if os.MkdirAll(name, 0o755) != nil {
				panic(harnessBug)
			}
			return
		}
		if os.MkdirAll(filepath.Dir(name), 0o755) != nil || os.WriteFile(name, f.Txt, 0o644) != nil {
			panic(harnessBug)
		}
		lib = append(lib, M{"nm": sids(name), "txt": ids(f.Txt)})
		all = append(all, string(f.Txt))
	}
	for k, r := range rel {
		name := filepath.Join(root, "data", r)
		m[keys[k]] = sids(name)
		put(name, op.Files[k])
	}
	sep := ","
	if op.V {
		sep = ", "
	}
	var names []string
	for _, n := range strs(op.L) {
		if strings.HasPrefix(n, "@") {
			n = filepath.Join(root, "u"+n[1:]+".txt")
		}
		names = append(names, n)
	}
	for k, f := range op.Files[len(rel):] {
		put(filepath.Join(root, fmt.Sprintf("u%d.txt", k+1)), f)
	}
	t := strings.Join(names, sep)
	m["t"], m["cm"], m["lib"], m["none"] = sids(t), charID(","), lib, op.Def
	return t, all
}

// constructors: New of files, NewEmbed of texts
func (x *exec) newload(op *Op) {
	var s gse.Segmenter
	var e error
	c := &Cfg{An: op.C.An}
	m := M{"op": "load", "g": op.G}
	switch op.How {
	case "New":
		names, fe := x.files(op.Files)
		var all []string
		for _, f := range op.Files {
			all = append(all, string(f.Txt))
		}
		m["how"], m["files"], m["nums"] = "file", fe, nums("", all...)
		arg := []string{strings.Join(names, ", ")}
		if c.An {
			arg = append(arg, "alpha")
		}
		s, e = gse.New(arg...)
	case "NewEmbed":
		m["how"], m["txt"], m["nums"] = "str", ids(op.T), nums("", string(op.T))
		arg := []string{string(op.T)}
		if c.An {
			arg = append(arg, map[bool]string{false: "alpha", true: "en"}[op.V])
		}
		s, e = gse.NewEmbed(arg...)
	default:
		panic(harnessBug)
	}
	x.segs[op.G] = &s
	x.emit(M{"op": "new", "g": op.G, "c": c.event()})
	x.err(m, e)
}

// names of these files, for a segmenter made by loading them
func (x *exec) names(fs []File) string {
	var l []string
	for _, f := range fs {
		l = append(l, x.file(f))
	}
	return strings.Join(l, ", ")
}

// frequency texts taken as they are
func numsExact(l []string) []M {
	out := []M{}
	seen := map[string]bool{}
	for _, t := range l {
		if seen[t] {
			continue
		}
		seen[t] = true
		v, err := strconv.ParseFloat(t, 64)
		if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
			continue
		}
		n := int(math.Floor(math.Min(v*4, 2e9)))
		if v < 0 {
			n = -1
		}
		out = append(out, M{"t": sids(t), "v": n})
	}
	return out
}

func apply(s *gse.Segmenter, c *Cfg) {
	s.Alpha, s.Num, s.AlphaNum = c.Al, c.Nu, c.An
	s.LoadNoFreq, s.DictSep = c.Lnf, c.Sep
	s.NotStop, s.SkipPos = c.Ns, c.Skp
}

func (x *exec) do(op *Op) {
	s := x.segs[op.G]
	t := string(op.T)
	switch op.Op {
	case "new":
		s = &gse.Segmenter{SkipLog: !op.C.Log, MoreLog: op.C.Log}
		apply(s, op.C)
		s.MinTokenFreq, s.TextFreq, s.NotLoadHMM = float64(op.C.Mtf)/4, op.C.Tf, op.C.Nlh
		x.segs[op.G] = s
		x.emit(M{"op": "new", "g": op.G, "c": op.C.event()})
	case "newload":
		x.newload(op)
	case "newidf":
		x.idfs[op.G] = idf.NewIdf()
		x.emit(M{"op": "new", "g": op.G, "c": (&Cfg{}).event()})
	case "opts":
		apply(s, op.C)
		x.emit(M{"op": "opts", "g": op.G, "c": op.C.event()})
	case "tolower":
		gse.ToLower = op.V
		x.emit(M{"op": "tolower", "v": op.V})
	case "load":
		x.load(op)
	case "empty":
		x.err(M{"op": "empty", "g": op.G}, s.Empty())
	case "calc":
		s.CalcToken()
		x.emit(M{"op": "calc", "g": op.G})
	case "add", "addf", "readd":
		f := map[string]func(string, float64, ...string) error{"add": s.AddToken, "addf": s.AddTokenForce, "readd": s.ReAddToken}[op.Op]
		var e error
		if op.By && s.Dict != nil && op.Op == "add" { // by way of the dictionary
			e = s.Dictionary().AddToken(s.ToToken(t, float64(op.F)/4, x.pos(op)...))
		} else if op.V && s.Dict != nil && op.Op == "add" {
			e = (&pos.Dict{Seg: *s}).AddToken(t, float64(op.F)/4, x.pos(op)...)
		} else {
			e = f(t, float64(op.F)/4, x.pos(op)...)
		}
		x.err(M{"op": op.Op, "g": op.G, "t": ids(op.T), "f": op.F, "p": ids(op.P)}, e)
	case "rem":
		var e error
		if op.By && s.Dict != nil {
			e = s.Dictionary().RemoveToken(s.ToToken(t, 0))
		} else if op.V {
			e = (&pos.Dict{Seg: *s}).RemoveToken(t)
		} else {
			e = s.RemoveToken(t)
		}
		x.err(M{"op": "rem", "g": op.G, "t": ids(op.T)}, e)
	case "newsw": // a set of stop words of its own kind, which begins with the default ones
		x.stops[op.G] = idf.NewStopWord()
		x.emit(M{"op": "new", "g": op.G, "c": (&Cfg{}).event()})
		x.emit(M{"op": "stoparr", "g": op.G, "l": defaultStops()})
	case "addstop":
		if sw := x.stops[op.G]; sw != nil {
			sw.AddStop(t)
		} else {
			s.AddStop(t)
		}
		x.emit(M{"op": "addstop", "g": op.G, "t": ids(op.T)})
	case "stoparr":
		if op.V {
			s.AddStopArr(strs(op.L)...)
		} else {
			s.LoadStopArr(strs(op.L))
		}
		x.emit(M{"op": "stoparr", "g": op.G, "l": blids(op.L)})
	case "stopstr":
		var e error
		if op.V {
			e = s.LoadStopEmbed(t)
		} else {
			e = s.LoadStopStr(t)
		}
		x.err(M{"op": "stopstr", "g": op.G, "txt": ids(op.T)}, e)
	case "stopembeds":
		txt := strings.Join(strs(op.L), ", ")
		var e error
		if txt == "" {
			e = s.LoadStopEmbed()
		} else {
			e = s.LoadStopEmbed(txt)
		}
		for k, t := range strings.Split(txt, ", ") {
			if k == 0 && t == "zh" {
				t = ""
			}
			x.err(M{"op": "stopstr", "g": op.G, "txt": sids(t)}, e)
		}
	case "stopfile":
		if op.How == "stops" {
			m := M{"op": "stopfile", "g": op.G, "how": "stops"}
			names, _ := x.lib(op, s, m, []string{"dict/zh/stop_word.txt", "dict/zh/stop_tokens.txt"}, []string{"sw", "stk"})
			if op.Def {
				x.err(m, s.LoadStop())
			} else {
				x.err(m, s.LoadStop(names))
			}
			return
		}
		names, fe := x.files(op.Files)
		var e error
		if sw := x.stops[op.G]; sw != nil {
			e = sw.LoadDict(strings.Join(names, ", "))
		} else {
			e = s.LoadStop(strings.Join(names, ", "))
		}
		x.err(M{"op": "stopfile", "g": op.G, "how": "file", "files": fe}, e)
	case "rmstop":
		if sw := x.stops[op.G]; sw != nil {
			sw.RemoveStop(t)
		} else {
			s.RemoveStop(t)
		}
		x.emit(M{"op": "rmstop", "g": op.G, "t": ids(op.T)})
	case "emptystop":
		x.err(M{"op": "emptystop", "g": op.G}, s.EmptyStop())
	case "model":
		if op.M == 1 {
			if s != nil {
				s.LoadModel()
			} else {
				hmm.LoadModel()
			}
		} else if m := models[op.M]; s != nil {
			s.LoadModel(m.B, m.E, m.M, m.S)
		} else {
			hmm.LoadModel(m.B, m.E, m.M, m.S)
		}
		x.emit(M{"op": "model", "g": op.G, "m": op.M})
	default:
		x.query(op, s, t)
		return
	}
	x.release(op.G)
}

func (x *exec) loss(op *Op, t string, r []string, low bool) {
	x.emit(M{"op": "loss", "g": op.G, "fn": op.Fn, "t": sids(t), "r": lids(r), "low": low})
}

// pairs of boundaries between which HMMCut gives the very pieces
func hmTable(s *gse.Segmenter, r []string, rg []*regexp.Regexp) [][]int {
	out := make([][]int, len(r)+1)
	for i := range out {
		out[i] = []int{}
	}
	for i := range r {
		for j := i + 1; j <= len(r); j++ {
			run := strings.Join(r[i:j], "")
			if h := s.HMMCut(run, rg...); reflect.DeepEqual(h, r[i:j]) {
				out[i] = append(out[i], j+1)
			}
		}
	}
	return out
}

func (x *exec) query(op *Op, s *gse.Segmenter, t string) {
	ev := M{"op": op.Op, "g": op.G, "t": ids(op.T)}
	switch op.Op {
	case "seg":
		if op.V {
			ev["r"] = x.segEvent(op.T, s.ModeSegment(x.bytes(t), true))
		} else {
			ev["r"] = x.segEvent(op.T, s.Segment(x.bytes(t)))
		}
	case "out":
		segs := s.Segment(x.bytes(t))
		ev["r"] = x.segEvent(op.T, segs)
		ev["sl"], ev["slice"], ev["cut"] = lids(gse.ToSlice(segs)), lids(s.Slice(t)), lids(s.Cut(t))
		ev["ps"], ev["pos"] = spEvent(gse.ToPos(segs)), spEvent(s.Pos(t))
		ev["st"], ev["str"] = sids(gse.ToString(segs)), sids(s.String(t))
		if op.V {
			ev["sl"], ev["slice"] = lids(gse.ToSlice(segs, false)), lids(s.Slice(t, false))
			ev["ps"], ev["pos"] = spEvent(gse.ToPos(segs, false)), spEvent(s.Pos(t, false))
			ev["st"], ev["str"] = sids(gse.ToString(segs, false)), sids(s.String(t, false))
		}
	case "search":
		segs := s.ModeSegment(x.bytes(t), true)
		trees := []M{}
		for k := range segs {
			trees = append(trees, tree(segs[k].Token(), 0))
		}
		ev["trees"] = trees
		ev["plain"], ev["mode"] = plain(s.Segment(x.bytes(t))), plain(segs)
		ev["sl"], ev["slice"], ev["cs"] = lids(gse.ToSlice(segs, true)), lids(s.Slice(t, true)), lids(s.CutSearch(t))
		ev["ps"], ev["pos"] = spEvent(gse.ToPos(segs, true)), spEvent(s.Pos(t, true))
		ev["st"], ev["str"] = sids(gse.ToString(segs, true)), sids(s.String(t, true))
	case "atoms":
		var w []gse.Text
		if op.Def {
			w = gse.SplitWords(gse.Text(op.T))
		} else {
			w = s.SplitTextToWords(gse.Text(op.T))
		}
		r := [][]int{}
		for _, v := range w {
			r = append(r, ids(v))
		}
		ev["r"], ev["def"] = r, op.Def
	case "loss":
		switch op.Fn {
		case "cutno":
			x.loss(op, t, s.Cut(t, false), true)
		case "cuth":
			x.loss(op, t, s.Cut(t, true), true)
		case "dag":
			x.loss(op, t, s.CutDAG(t, regs(op)...), true)
		case "dagno":
			x.loss(op, t, s.CutDAGNoHMM(t), true)
		case "hmm":
			x.loss(op, t, s.HMMCut(t, regs(op)...), false)
		case "hmmpkg":
			x.loss(op, t, hmm.Cut(t, regs(op)...), false)
		case "cutall", "cutsearch", "suggest", "find", "value":
			// only that they come back
			switch op.Fn {
			case "cutall":
				s.CutAll(t)
			case "cutsearch":
				s.CutSearch(t, op.H)
				s.CutSearch(t)
			case "suggest":
				s.SuggestFreq(t)
				s.SuggestFreq(t, t)
			case "find":
				s.Find(t)
			case "value":
				s.Value(t)
			}
		default:
			panic(harnessBug)
		}
		return
	case "dagno":
		if op.V {
			ev["r"] = lids(s.CutDAGNoHMM(t))
		} else {
			ev["r"] = lids(s.Cut(t, false))
		}
		ev["whole"] = op.H
	case "dagh":
		rg := regs(op)
		var r []string
		if op.V || len(rg) > 0 {
			r = s.CutDAG(t, rg...)
		} else {
			r = s.Cut(t, true)
		}
		ev["r"], ev["hm"] = lids(r), hmTable(s, r, rg)
	case "hmm":
		ev["ck"], ev["sk"] = "han", "std"
		if op.Sk != "" {
			ev["sk"] = op.Sk
			if op.Ck != "" && op.Sk != "std" {
				ev["ck"] = op.Ck
			}
		}
		if op.V || s == nil {
			ev["r"] = lids(hmm.Cut(t, regs(op)...))
		} else {
			ev["r"] = lids(s.HMMCut(t, regs(op)...))
		}
	case "hmmmod":
		ev["ck"], ev["sk"], ev["m"] = "han", "std", op.M
		if op.M == 1 {
			ev["r"] = lids(s.HMMCutMod(t))
		} else {
			m := models[op.M]
			ev["r"] = lids(s.HMMCutMod(t, m.B, m.E, m.M, m.S))
		}
	case "vit":
		ru := []rune(t)
		if len(ru) == 0 {
			panic(harnessBug)
		}
		lg, path := hmm.Viterbi(ru, []byte{'B', 'M', 'E', 'S'})
		lens, n := []int{}, 0
		for k, st := range path {
			n++
			if st == 'E' || st == 'S' || k == len(path)-1 {
				lens = append(lens, n)
				n = 0
			}
		}
		if len(path) != len(ru) {
			lens = []int{}
		}
		ev["lens"] = lens
		ev["lg"] = -1
		if lg <= 0 && lg > -400000 {
			ev["lg"] = int(math.Round(-lg * 4096))
		}
	case "cutall":
		ev["r"] = lids(s.CutAll(t))
	case "cutsearch":
		ev["words"] = lids(s.Cut(t, op.H))
		ev["r"] = lids(s.CutSearch(t, op.H))
	case "find":
		var f float64
		var p string
		var ok bool
		if i := x.idfs[op.G]; i != nil {
			f, p, ok = i.Freq(t)
		} else if op.V && s.Dict != nil {
			f, p, ok = s.Dictionary().Find(x.bytes(t))
		} else if op.H {
			f, p, ok = (&pos.Dict{Seg: *s}).Freq(t)
		} else {
			f, p, ok = s.Find(t)
		}
		ev["f"], ev["p"], ev["ok"] = q4(f), sids(p), ok
	case "value":
		v, _, e := s.Value(t)
		ev["v"], ev["ok"] = v, e == nil
	case "lookup": // the words that the text begins with
		r := []M{}
		if s.Dict != nil {
			words := s.SplitTextToWords(x.bytes(t))
			toks := make([]*gse.Token, len(words))
			n := s.Dictionary().LookupTokens(words, toks)
			for _, tk := range toks[:n] {
				r = append(r, M{"t": sids(tk.Text()), "f": q4(tk.Freq()), "p": sids(tk.Pos())})
			}
		}
		ev["r"] = r
	case "stats":
		if i := x.idfs[op.G]; i != nil {
			ev["n"], ev["tot"], ev["mx"] = i.NumTokens(), q4(i.TotalFreq()), 0
		} else {
			ev["n"], ev["tot"], ev["mx"] = s.Dict.NumTokens(), q4(s.Dict.TotalFreq()), s.Dict.MaxTokenLen()
		}
	case "dump":
		r := []M{}
		if s.Dict != nil {
			for k := range s.Dict.Tokens {
				tk := &s.Dict.Tokens[k]
				r = append(r, M{"t": sids(tk.Text()), "f": q4(tk.Freq()), "p": sids(tk.Pos())})
			}
		}
		ev["r"] = r
	case "same":
		ev["gs"] = op.Gs
	case "suggest":
		x.suggest(op, s)
		return
	case "isstop":
		if sw := x.stops[op.G]; sw != nil {
			ev["r"] = sw.IsStopWord(t)
		} else {
			ev["r"] = s.IsStop(t)
		}
	case "stopf":
		ev["l"] = blids(op.L)
		ev["r"] = lids(s.Stop(strs(op.L)))
	case "filter":
		ev["fn"], ev["lang"] = op.Fn, op.Lang
		ev["r"] = sids(map[string]func(string) string{
			"symbol": gse.FilterSymbol, "emoji": gse.FilterEmoji, "html": gse.FilterHtml,
			"lang":      func(v string) string { return gse.FilterLang(v, op.Lang) },
			"rangetext": gse.RangeText, "splitnums": gse.SplitNums}[op.Fn](t))
	case "filterl":
		ev["fn"] = op.Fn
		if op.Fn == "range" {
			ev["r"] = lids(gse.Range(t))
		} else {
			ev["r"] = lids(gse.SplitNum(t))
		}
	case "trim":
		x.trim(op, s, ev)
	case "comp":
		x.comp(op, s, t, ev)
	case "analyze":
		l := strs(op.L)
		var az []gse.AnalyzeToken
		if op.By {
			az = s.Analyze(l, t, true)
		} else if op.V && t != "" {
			az = s.Analyze(l, t, false)
		} else {
			az = s.Analyze(l, t)
		}
		r := []M{}
		for _, a := range az {
			r = append(r, M{"t": sids(a.Text), "n": a.Position, "s": a.Start, "e": a.End, "f": q4(a.Freq), "p": sids(a.Pos)})
		}
		ev["l"], ev["by"], ev["r"] = blids(op.L), op.By, r
	case "occs":
		occ := gse.FindAllOccs(x.bytes(t), strs(op.L))
		r := []M{}
		for _, k := range sortedKeys(occ) {
			r = append(r, M{"t": sids(k), "at": append([]int{}, occ[k]...)})
		}
		ev["l"], ev["r"] = blids(op.L), r
	case "poscut":
		ps := &x.withSeg(op.G).ps
		if op.By {
			ps = &pos.Segmenter{}
			ps.WithGse(*s)
		}
		if len(op.Files) > 0 {
			ps = &pos.Segmenter{}
			ps.LoadDict(x.names(op.Files))
		}
		if op.V {
			ev["r"] = spEvent(ps.Cut(t))
		} else {
			ev["r"] = spEvent(ps.Cut(t, false))
		}
		ev["h"] = spEvent(ps.Cut(t, true))
	case "newtags":
		te := &idf.TagExtracter{}
		if te.WithGse(*s); len(op.Files) > 0 {
			te = &idf.TagExtracter{}
			te.LoadDict(x.names(op.Files))
		}
		x.tags[op.G2] = te
		// the stop words are shared by all extracters: what is there now
		x.emit(M{"op": "new", "g": op.G2, "c": (&Cfg{}).event()})
		x.emit(M{"op": "stoparr", "g": op.G2, "l": defaultStops()})
		return
	case "tagidf":
		te := x.tags[op.G2]
		switch op.How {
		case "str":
			x.emit(M{"op": "new", "g": op.G, "c": (&Cfg{}).event()})
			m := M{"op": "load", "g": op.G, "how": "str", "txt": ids(op.T), "nums": nums("", t)}
			x.err(m, te.LoadIdfStr(t))
		case "file":
			x.emit(M{"op": "new", "g": op.G, "c": (&Cfg{}).event()})
			m := M{"op": "load", "g": op.G, "how": "file", "files": []M{{"ok": true, "txt": ids(op.T)}}, "nums": nums("", t)}
			x.err(m, te.LoadIdf(x.file(File{Txt: op.T})))
		case "new":
			te.Idf = idf.NewIdf()
			x.emit(M{"op": "new", "g": op.G, "c": (&Cfg{}).event()})
		}
		x.idfs[op.G] = te.Idf
		return
	case "tagstop":
		te := x.tags[op.G2]
		m := M{"op": "stopfile", "g": op.G2, "how": "file", "files": []M{{"ok": true, "txt": ids(op.T)}}}
		x.err(m, te.LoadStopWords(x.file(File{Txt: op.T})))
		return
	case "idfadd":
		e := x.idfs[op.G].AddToken(t, float64(op.F)/4, x.pos(op)...)
		x.err(M{"op": "idfadd", "g": op.G, "t": ids(op.T), "f": op.F, "p": ids(op.P)}, e)
		return
	case "tags":
		te := x.tags[op.G2]
		ev["ig"], ev["sg"], ev["k"] = op.G3, op.G2, op.K
		ev["cut"] = lids(s.Cut(t, true))
		ev["r"] = weights(te.ExtractTags(t, op.K), 10000)
	case "rank":
		tr := &x.withSeg(op.G).tr
		if len(op.Files) > 0 {
			tr = &idf.TextRanker{}
			tr.LoadDict(x.names(op.Files))
		}
		var ps pos.Segmenter
		ps.WithGse(*s)
		ev["pairs"], ev["k"] = spEvent(ps.Cut(t, true)), op.K
		allow := strs(op.PS)
		rr := [][]M{}
		for n := 0; n < 3; n++ {
			if op.Def {
				allow = []string{"ns", "n", "vn", "v"}
				rr = append(rr, weights(tr.TextRank(t, op.K), 1000000))
			} else {
				rr = append(rr, weights(tr.TextRankWithPOS(t, op.K, allow), 1000000))
			}
		}
		ev["allow"], ev["rr"] = lids(allow), rr
	case "paths":
		r := gse.DictPaths("/d", t)
		ev["cm"], ev["jp"], ev["zht"], ev["zhs"] = charID(","), sids("/d/dict/jp/dict.txt"), sids("/d/dict/zh/t_1.txt"), sids("/d/dict/zh/s_1.txt")
		ev["r"] = lids(r)
	case "call":
		key, res := x.call(op, s, t)
		x.emit(M{"op": "call", "g": op.G, "key": intern(key), "res": intern(res)})
		return
	default:
		panic(harnessBug)
	}
	x.emit(ev)
}

func defaultStops() interface{} {
	l := [][]byte{}
	for _, w := range sortedStops() {
		l = append(l, []byte(w))
	}
	return blids(l)
}

func weights(l segment.Segments, unit float64) []M {
	out := []M{}
	for _, v := range l {
		w := v.GetWeight() * unit
		if math.IsNaN(w) || math.Abs(w) > 2e8 {
			w = -1
		}
		out = append(out, M{"t": sids(v.GetText()), "w": int(math.Round(w))})
	}
	return out
}

func (x *exec) suggest(op *Op, s *gse.Segmenter) {
	ws := strs(op.L)
	parts := ws
	if len(ws) == 1 {
		parts = s.Cut(ws[0], false)
	}
	f := s.SuggestFreq(ws...)
	x.emit(M{"op": "suggest", "g": op.G, "ws": lids(ws), "parts": lids(parts), "r": q4(f)})
	if !op.H || len(ws) != 1 || q4(f) < 0 || q4(f) > 400000000 {
		return
	}
	if v, _, ok := s.Find(ws[0]); ok && v > 0 {
		x.do(&Op{Op: "rem", G: op.G, T: op.L[0]})
	}
	x.do(&Op{Op: "addf", G: op.G, T: op.L[0], F: q4(f), P: b("n")})
	x.do(&Op{Op: "dagno", G: op.G, T: op.L[0], H: true})
}

func (x *exec) trim(op *Op, s *gse.Segmenter, ev M) {
	ev["fn"], ev["ps"] = op.Fn, blids(op.PS)
	switch op.Fn {
	case "trim", "trimsymbol", "trimpunct":
		in := strs(op.L)
		ev["l"] = lids(in)
		f := map[string]func([]string) []string{"trim": s.Trim, "trimsymbol": s.TrimSymbol, "trimpunct": s.TrimPunct}[op.Fn]
		ev["r"] = lids(f(in))
		ev["after"] = lids(in)
	default:
		in := toSP(op.LP)
		ev["l"] = spEvent(in)
		var ps pos.Segmenter
		ps.WithGse(*s)
		var r []gse.SegPos
		switch op.Fn {
		case "trimpos":
			r = s.TrimPos(in)
		case "trimpospunct":
			r = s.TrimPosPunct(in)
		case "trimwithpos":
			r = s.TrimWithPos(in, strs(op.PS)...)
		case "ptrim":
			r = ps.Trim(in)
		case "ptrimpunct":
			r = ps.TrimPunct(in)
		case "ptrimwithpos":
			r = ps.TrimWithPos(in, strs(op.PS)...)
		default:
			panic(harnessBug)
		}
		ev["r"] = spEvent(r)
		ev["after"] = spEvent(in)
	}
}

func (x *exec) comp(op *Op, s *gse.Segmenter, t string, ev M) {
	ev["fn"], ev["ps"] = op.Fn, blids(op.PS)
	var h []bool
	if !op.Def {
		h = []bool{op.H}
	}
	switch op.Fn {
	case "cutstop":
		ev["cut"], ev["r"] = lids(s.Cut(t, h...)), lids(s.CutStop(t, h...))
	case "cuttrim":
		ev["cut"], ev["r"] = lids(s.Cut(t, h...)), lids(s.CutTrim(t, h...))
	case "cuthtml":
		in := gse.FilterHtml(t)
		ev["in"], ev["cut"], ev["r"] = sids(in), lids(s.Cut(in, h...)), lids(s.CutTrimHtml(t, h...))
	case "cuthtmls":
		in := gse.FilterHtml(t)
		ev["in"], ev["cut"], ev["rs"] = sids(in), lids(s.Cut(in, h...)), sids(s.CutTrimHtmls(t, h...))
	case "cuturl", "cuturls":
		in := t
		var num []bool
		if op.V {
			num = []bool{op.H}
		} else {
			in = gse.SplitNums(t)
		}
		ev["in"], ev["num"], ev["cut"] = sids(in), op.V, lids(s.Cut(in))
		if op.Fn == "cuturl" {
			ev["r"] = lids(s.CutUrl(t, num...))
		} else {
			ev["rs"] = sids(s.CutUrls(t, num...))
		}
	case "postrim":
		ev["pos"], ev["r"] = spEvent(s.Pos(t, op.H)), spEvent(s.PosTrim(t, op.H, strs(op.PS)...))
	case "postrimarr":
		ev["pos"], ev["r"] = spEvent(s.Pos(t, op.H)), lids(s.PosTrimArr(t, op.H, strs(op.PS)...))
	case "postrimstr":
		ev["pos"], ev["rs"] = spEvent(s.Pos(t, op.H)), sids(s.PosTrimStr(t, op.H, strs(op.PS)...))
	case "cutstr":
		ev["l"], ev["sep"] = blids(op.L), sids(" ")
		if op.Def {
			ev["rs"] = sids(s.CutStr(strs(op.L)))
		} else {
			ev["sep"], ev["rs"] = ids(op.Sep), sids(s.CutStr(strs(op.L), string(op.Sep)))
		}
	case "posstr":
		ev["pos"], ev["sep"] = spEvent(toSP(op.LP)), sids(" ")
		if op.Def {
			ev["rs"] = sids(s.PosStr(toSP(op.LP)))
		} else {
			ev["sep"], ev["rs"] = ids(op.Sep), sids(s.PosStr(toSP(op.LP), string(op.Sep)))
		}
	default:
		panic(harnessBug)
	}
}
