package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/pos"
)

var interned = map[string]int{}

func intern(s string) int {
	if id, ok := interned[s]; ok {
		return id
	}
	interned[s] = len(interned) + 1
	return len(interned)
}

func sortedKeys(m map[string][]int) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func sortedStops() (out []string) {
	for k := range idf.StopWordMap {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// query functions that take a text; used to compare a call with itself
var callFns = []string{"segment", "mode", "cut", "cutno", "cuth", "cutall", "cutsearch", "cutsearchh", "cutsearchno",
	"dag", "dagno", "hmmcut", "slice", "slices", "string", "strings", "pos", "poss", "cutstop", "cuttrim", "cuthtml",
	"cuturl", "postrim", "find", "value", "isstop", "split", "analyze", "suggest", "poscut", "poscuth", "stop", "trim", "trimpos",
	"rank", "fsymbol", "fhtml", "flang", "femoji", "range", "occs", "dict"}

// format gives a result as a text.
func format(r interface{}) string {
	j, err := json.Marshal(r)
	if err != nil {
		j = []byte(fmt.Sprintf("%#v", r))
	}
	return string(j)
}

// quoted lists byte strings so that all bytes can be seen
type quoted []string

func (q quoted) MarshalJSON() ([]byte, error) {
	return json.Marshal(fmt.Sprintf("%q", []string(q)))
}

// number is any float
type number float64

func (n number) MarshalJSON() ([]byte, error) {
	return json.Marshal(fmt.Sprint(float64(n)))
}

// doCall gives the result of a query, and whether its inputs were left as they were.
// lazy: segments and words are given as they are, to be looked at again later.
// It formats nothing: it must not order the calls of different goroutines.
func doCall(fn string, s *gse.Segmenter, t string, lazy bool) (r interface{}, kept bool) {
	kept = true
	switch fn {
	case "segment", "mode":
		in := []byte(t)
		var segs []gse.Segment
		if fn == "segment" {
			segs = s.Segment(in)
		} else {
			segs = s.ModeSegment(in, true)
		}
		kept = string(in) == t
		r = lazySegs(segs).now()
		if lazy {
			r = lazySegs(segs)
		}
	case "cut":
		r = s.Cut(t)
	case "cutno":
		r = s.Cut(t, false)
	case "cuth":
		r = s.Cut(t, true)
	case "cutall":
		r = s.CutAll(t)
	case "cutsearch":
		r = s.CutSearch(t)
	case "cutsearchh":
		r = s.CutSearch(t, true)
	case "cutsearchno":
		r = s.CutSearch(t, false)
	case "dag":
		r = s.CutDAG(t)
	case "dagno":
		r = s.CutDAGNoHMM(t)
	case "hmmcut":
		r = s.HMMCut(t)
	case "slice":
		r = s.Slice(t)
	case "slices":
		r = s.Slice(t, true)
	case "string":
		r = s.String(t)
	case "strings":
		r = s.String(t, true)
	case "pos":
		r = s.Pos(t)
	case "poss":
		r = s.Pos(t, true)
	case "cutstop":
		r = s.CutStop(t, true)
	case "cuttrim":
		r = s.CutTrim(t)
	case "cuthtml":
		r = s.CutTrimHtml(t)
	case "cuturl":
		r = s.CutUrl(t)
	case "postrim":
		r = s.PosTrim(t, false, "n")
	case "find":
		f, p, ok := s.Find(t)
		r = []interface{}{number(f), p, ok}
	case "value":
		v, _, e := s.Value(t)
		r = []interface{}{v, e == nil}
	case "isstop":
		r = s.IsStop(t)
	case "split":
		in := gse.Text(t)
		w := s.SplitTextToWords(in)
		kept = string(in) == t
		r = lazyWords(w).now()
		if lazy {
			r = lazyWords(w)
		}
	case "analyze":
		in := s.Cut(t)
		cp := append([]string{}, in...)
		r = s.Analyze(in, t)
		kept = reflect.DeepEqual(append([]string{}, in...), cp)
	case "suggest":
		r = number(s.SuggestFreq(t))
	case "poscut", "poscuth":
		var ps pos.Segmenter
		ps.WithGse(*s)
		r = ps.Cut(t, fn == "poscuth")
	case "stop", "trim":
		in := s.Cut(t)
		cp := append([]string{}, in...)
		if fn == "stop" {
			r = s.Stop(in)
		} else {
			r = s.Trim(in)
		}
		kept = reflect.DeepEqual(append([]string{}, in...), cp)
	case "trimpos":
		in := s.Pos(t)
		cp := append([]gse.SegPos{}, in...)
		r = []interface{}{s.TrimPos(in), s.TrimPosPunct(in), s.TrimWithPos(in, "n", "v")}
		kept = reflect.DeepEqual(append([]gse.SegPos{}, in...), cp)
	case "rank":
		var tr idf.TextRanker
		tr.WithGse(*s)
		r = tr.TextRank(t, 5)
	case "fsymbol":
		r = gse.FilterSymbol(t)
	case "fhtml":
		r = gse.FilterHtml(t)
	case "flang":
		r = gse.FilterLang(t, "Han")
	case "femoji":
		r = gse.FilterEmoji(t)
	case "range":
		r = []interface{}{gse.Range(t), gse.RangeText(t), gse.SplitNum(t), gse.SplitNums(t)}
	case "occs":
		r = gse.FindAllOccs([]byte(t), s.Cut(t, true))
	case "dict":
		if s.Dict == nil {
			break
		}
		d := s.Dictionary()
		r = []interface{}{d.NumTokens(), d.MaxTokenLen(), number(d.TotalFreq())}
	default:
		panic(harnessBug)
	}
	return r, kept
}

type rawToken struct {
	T quoted
	P string
	F number
	K []rawToken
}

func rawTree(tk *gse.Token, depth int) rawToken {
	kids := []rawToken{}
	if depth < 40 {
		for _, s := range tk.Segments() {
			if s != nil {
				kids = append(kids, rawTree(s.Token(), depth+1))
			}
		}
	}
	return rawToken{quoted{tk.Text()}, tk.Pos(), number(tk.Freq()), kids}
}

func callKey(g int, fn, t string) string { return fmt.Sprintf("%d %s %q", g, fn, t) }

type one struct {
	T    interface{}
	S, E int
}

// segments as they were returned
type lazySegs []gse.Segment

func (l lazySegs) now() []one {
	out := []one{}
	for k := range l {
		out = append(out, one{rawTree(l[k].Token(), 0), l[k].Start(), l[k].End()})
	}
	return out
}

func (l lazySegs) MarshalJSON() ([]byte, error) { return json.Marshal(l.now()) }

type lazyWords []gse.Text

func (l lazyWords) now() quoted {
	q := quoted{}
	for _, v := range l {
		q = append(q, string(v))
	}
	return q
}

func (l lazyWords) MarshalJSON() ([]byte, error) { return json.Marshal(l.now()) }

// a result that was returned, and what it was then
type held struct {
	g    int
	r    interface{}
	want string
}

func (x *exec) call(op *Op, s *gse.Segmenter, t string) (key, res string) {
	r, kept := doCall(op.Fn, s, t, true)
	if !kept {
		x.emit(M{"op": "kept", "g": op.G, "a": 0, "b": 1})
	}
	res = format(r)
	for _, h := range x.held {
		if format(h.r) != h.want {
			x.emit(M{"op": "kept", "g": h.g, "a": 0, "b": 2})
			break
		}
	}
	x.held = append(x.held, held{op.G, r, res})
	return callKey(op.G, op.Fn, t), op.Fn + res
}

// the segments of a segmenter that changes may change with it, and are then held as they are
func (x *exec) release(g int) {
	for k, h := range x.held {
		if _, ok := h.r.(lazySegs); ok && h.g == g {
			x.held[k].want = format(h.r)
		}
	}
}
