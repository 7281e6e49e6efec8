package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm"
)

// Goroutines are recorded without any lock or atomic of the driver between their
// calls, which would order them for the race detector: each keeps its own list, with
// times of the monotonic clock, and all is put together when they have ended.

// what a goroutine did
type step struct {
	op   *Op
	g    int
	r    interface{}
	kept bool
	pan  string
	s, e time.Duration
}

// silent makes a call that changes a segmenter, and records nothing.
func silent(op *Op, segs map[int]*gse.Segmenter, dir, id string) {
	s, t := segs[op.G], string(op.T)
	switch op.Op {
	case "new":
		s = &gse.Segmenter{SkipLog: true}
		apply(s, op.C)
		s.MinTokenFreq, s.TextFreq, s.NotLoadHMM = float64(op.C.Mtf)/4, op.C.Tf, op.C.Nlh
		segs[op.G] = s
	case "load":
		switch op.How {
		case "map":
			var dict []map[string]string
			for _, it := range op.Items {
				d := map[string]string{}
				for _, kv := range it.KV {
					d[kv[0]] = kv[1]
				}
				dict = append(dict, d)
			}
			s.LoadDictMap(dict)
		case "str":
			s.LoadDictStr(t)
		case "embed":
			s.LoadDictEmbed(t)
		case "reader":
			s.Reader(bufio.NewReader(bytes.NewReader(op.T)))
		case "file":
			var names []string
			for k, f := range op.Files {
				n := filepath.Join(dir, fmt.Sprintf("p%s-%d.txt", id, k))
				if os.WriteFile(n, f.Txt, 0o644) != nil {
					panic(harnessBug)
				}
				names = append(names, n)
			}
			s.LoadDict(strings.Join(names, ", "))
		default:
			panic(harnessBug)
		}
	case "add":
		s.AddToken(t, float64(op.F)/4, string(op.P))
	case "addf":
		s.AddTokenForce(t, float64(op.F)/4, string(op.P))
	case "readd":
		s.ReAddToken(t, float64(op.F)/4, string(op.P))
	case "rem":
		s.RemoveToken(t)
	case "calc":
		s.CalcToken()
	case "empty":
		s.Empty()
	case "addstop":
		s.AddStop(t)
	case "stopstr":
		s.LoadStopStr(t)
	case "stoparr":
		s.LoadStopArr(strs(op.L))
	case "rmstop":
		s.RemoveStop(t)
	case "emptystop":
		s.EmptyStop()
	default:
		panic(harnessBug)
	}
}

// one goroutine; shared are the segmenters that no one changes
func thread(ops []Op, shared map[int]*gse.Segmenter, dir, id string, t0 time.Time) (out []step) {
	own := map[int]*gse.Segmenter{}
	out = make([]step, 0, len(ops))
	for k := range ops {
		op := &ops[k]
		if op.Us > 0 {
			time.Sleep(time.Duration(op.Us) * time.Microsecond)
		}
		st := step{op: op, g: op.G, kept: true, s: time.Since(t0)}
		func() {
			defer func() {
				if r := recover(); r != nil {
					st.pan = fmt.Sprint(r)
				}
			}()
			switch op.Op {
			case "call":
				s := shared[op.G]
				if op.V {
					s = own[op.G]
				}
				st.r, st.kept = doCall(op.Fn, s, string(op.T), false)
			case "model":
				loadModel(op, shared[op.G])
			case "cut":
				st.r = modelCut(op, shared[op.G])
			default:
				silent(op, own, dir, fmt.Sprint(id, "-", k))
			}
		}()
		st.e = time.Since(t0)
		out = append(out, st)
	}
	return
}

func loadModel(op *Op, s *gse.Segmenter) {
	m := models[op.M]
	switch {
	case op.How == "new": // making a dictionary loads the built-in model
		n := &gse.Segmenter{SkipLog: true}
		n.LoadDictStr("中 3 n")
	case op.How == "pkg" && op.M == 1:
		hmm.LoadModel()
	case op.How == "pkg":
		hmm.LoadModel(m.B, m.E, m.M, m.S)
	case op.M == 1:
		s.LoadModel()
	default:
		s.LoadModel(m.B, m.E, m.M, m.S)
	}
}

func modelCut(op *Op, s *gse.Segmenter) []string {
	t := string(op.T)
	m := models[op.M]
	switch op.Fn {
	case "mod":
		if op.M == 1 {
			return s.HMMCutMod(t)
		}
		return s.HMMCutMod(t, m.B, m.E, m.M, m.S)
	case "pkg":
		return hmm.Cut(t)
	case "dag":
		return s.CutDAG(t)
	case "cut":
		return s.Cut(t, true)
	}
	return s.HMMCut(t)
}

// par runs goroutines together, and gives what each did; nil if they hang.
func (x *exec) par(op *Op) [][]step {
	t0 := time.Now()
	out := make([][]step, len(op.Th))
	var wg sync.WaitGroup
	ready := make(chan bool)
	x.nf++
	for k := range op.Th {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-ready
			out[k] = thread(op.Th[k], x.segs, x.dir, fmt.Sprint(x.nf, "-", k), t0)
		}(k)
	}
	close(ready)
	wg.Wait()
	return out
}

// calls of goroutines: what each gives is what it gives alone
func (x *exec) parCalls(op *Op) bool {
	out := x.par(op)
	for _, l := range out {
		for _, st := range l {
			if st.pan != "" {
				x.emit(M{"op": "panic", "call": st.op.Op + " " + st.op.Fn, "msg": st.pan})
				return false
			}
			if !st.kept {
				x.emit(M{"op": "kept", "g": st.g, "a": 0, "b": 1})
			}
			if st.op.Op == "call" {
				x.emit(M{"op": "call", "g": st.g, "key": intern(callKey(st.g, st.op.Fn, string(st.op.T))), "res": intern(st.op.Fn + format(st.r))})
			}
		}
	}
	return true
}

// loads and cuts of goroutines, with the order of their starts and ends
func (x *exec) parModel(op *Op) bool {
	out := x.par(op)
	type mark struct {
		at  time.Duration
		end bool
		c   int
	}
	var marks []mark
	n := 0
	for _, l := range out {
		for _, st := range l {
			if st.pan != "" {
				x.emit(M{"op": "panic", "call": st.op.Op + " " + st.op.Fn, "msg": st.pan})
				return false
			}
			c := M{"op": "c", "m": 0, "cut": false, "t": []int{}, "r": [][]int{}, "fn": st.op.Op + " " + st.op.How + st.op.Fn}
			if st.op.Op == "model" || st.op.Fn == "mod" {
				c["m"] = st.op.M
			}
			if st.op.Op == "cut" {
				c["cut"], c["t"], c["r"] = true, ids(st.op.T), lids(st.r.([]string))
			}
			x.calls = append(x.calls, c)
			n++
			id := len(x.calls)
			marks = append(marks, mark{st.s, false, id}, mark{st.e, true, id})
		}
	}
	// at the same time, starts come first: then the calls overlap
	sort.SliceStable(marks, func(a, b int) bool {
		if marks[a].at != marks[b].at {
			return marks[a].at < marks[b].at
		}
		return !marks[a].end && marks[b].end
	})
	for _, m := range marks {
		x.emit(M{"op": map[bool]string{false: "inv", true: "ret"}[m.end], "c": m.c})
	}
	return true
}
