// Command drv makes calls of go-ego/gse and records them as a trace for the specification.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/go-ego/gse/hmm/idf"
)

// model: emission tables; index 1 is the built-in one
type model struct{ B, E, M, S map[rune]float64 }

var (
	models   []model // 0 and 1 unused
	modelQ   [][4]map[rune]int
	emitGold map[string][4]int

	// the built-in model of the part-of-speech cut (see tools/posmodel_test.go.txt)
	posGold struct {
		Tags  []string
		Start []int
		Trans [][3]int
		Chars map[string][2][]int
	}
)

// posTables is that model for the characters of the trace
func posTables() M {
	n := 4 * len(posGold.Tags)
	pred := make([][][2]int, n)
	for k := range pred {
		pred[k] = [][2]int{}
	}
	for _, t := range posGold.Trans {
		pred[t[1]-1] = append(pred[t[1]-1], [2]int{t[0], t[2]})
	}
	tab, em := make([][]int, len(charTab)), make([][]int, len(charTab))
	for i, c := range charRunes {
		tab[i], em[i] = []int{}, []int{}
		g, ok := posGold.Chars[string(c)]
		if !ok {
			continue
		}
		tab[i] = g[0]
		for k := 0; k < n; k++ {
			em[i] = append(em[i], -1)
		}
		for _, v := range g[1] {
			em[i][v/1000000-1] = v % 1000000
		}
	}
	return M{"tags": lids(posGold.Tags), "start": posGold.Start, "pred": pred, "tab": tab, "em": em, "m": sids("m")}
}

// makeModels makes user models over the session characters, in units of 1/4096.
func makeModels(r *rand.Rand) {
	models = make([]model, 2)
	modelQ = make([][4]map[rune]int, 2)
	e1, e2 := r.Intn(4), r.Intn(4)
	for k := 0; k < 8; k++ {
		var q [4]map[rune]int
		var f [4]map[rune]float64
		for st := 0; st < 4; st++ {
			q[st], f[st] = map[rune]int{}, map[rune]float64{}
			if k == 4 && st == 0 || k == 5 && (st == e1 || st == e2) { // empty tables
				if k == 5 {
					f[st] = nil
				}
				continue
			}
			for _, c := range append(append([]rune{}, han[:120]...), []rune("中国人民大学生北京市我是的一三龘あいアイabxz12é")...) {
				if k == 3 && r.Intn(12) == 0 || k == 2 && r.Intn(60) == 0 || k == 6 && r.Intn(5) < 2 {
					continue
				}
				v := r.Intn(12 * 4096)
				if k == 7 && r.Intn(3) == 0 { // hardly possible, yet there
					v = (20 + r.Intn(2400)) * 4096
				}
				if k == 7 && r.Intn(6) == 0 {
					continue
				}
				if k == 1 {
					v = 4096 * (1 + r.Intn(3)) // many ties
				}
				q[st][c] = v
				f[st][c] = -float64(v) / 4096
			}
		}
		models = append(models, model{f[0], f[1], f[2], f[3]})
		modelQ = append(modelQ, q)
	}
}

func modelTables() [][][4]int {
	out := make([][][4]int, len(models)-1)
	for m := 1; m < len(models); m++ {
		t := make([][4]int, len(charTab))
		for i, c := range charRunes {
			t[i] = [4]int{-1, -1, -1, -1}
			if m == 1 {
				if v, ok := emitGold[string(c)]; ok {
					t[i] = v
				}
				continue
			}
			for st := 0; st < 4; st++ {
				if v, ok := modelQ[m][st][c]; ok {
					t[i][st] = v
				}
			}
		}
		out[m-1] = t
	}
	return out
}

func cpu() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

const (
	hangWall = 25 * time.Second
	hangCPU  = 12 * time.Second
	hangHeap = 6 << 30
	idleWall = 60 * time.Second // all goroutines blocked
)

var (
	tick    int64 // calls made
	giveUp  bool  // run no more sessions
	waiting bool  // for the server, which has its own limits
)

// progress notes the session that runs, for when the process dies
func progress(dir string, k int) {
	if progressF == nil {
		f, err := os.Create(filepath.Join(dir, "progress"))
		if err != nil {
			return
		}
		progressF = f
	}
	progressF.WriteAt([]byte(fmt.Sprintf("%8d\n", k)), 0)
}

var progressF *os.File

// runAll runs the sessions; it stops at a call that does not come back.
func runAll(ss []*Session, dir string) {
	cur, evs := int64(0), make(chan *exec, 1)
	done := make(chan bool)
	go func() {
		for k, s := range ss {
			atomic.StoreInt64(&cur, int64(k))
			progress(dir, k)
			stops := map[string]bool{}
			for w := range idf.StopWordMap {
				stops[w] = true
			}
			x := newExec(dir)
			select {
			case <-evs:
			default:
			}
			evs <- x
			for q := range s.Ops {
				atomic.AddInt64(&tick, 1)
				if !x.run(&s.Ops[q]) {
					break
				}
			}
			s.ev, s.calls = x.ev, x.calls
			if giveUp {
				break
			}
			for w := range idf.StopWordMap {
				if !stops[w] {
					delete(idf.StopWordMap, w)
				}
			}
		}
		close(done)
	}()
	last, t0, c0 := int64(-1), time.Now(), cpu()
	for {
		select {
		case <-done:
			return
		case <-time.After(100 * time.Millisecond):
		}
		if v := atomic.LoadInt64(&tick); v != last {
			last, t0, c0 = v, time.Now(), cpu()
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > hangHeap || (time.Since(t0) > hangWall && cpu()-c0 > hangCPU) ||
			(time.Since(t0) > idleWall && cpu()-c0 < time.Second && !waiting) {
			x := <-evs
			s := ss[atomic.LoadInt64(&cur)]
			ev := append([]M{}, x.ev[:len(x.ev):len(x.ev)]...)
			s.ev = append(ev, M{"op": "hang", "call": x.cur.Op + " " + x.cur.Fn + x.cur.How})
			return
		}
	}
}

func main() {
	var (
		prop  = flag.String("prop", "", "property")
		seed  = flag.Int64("seed", 1, "seed")
		tier  = flag.String("tier", "quick", "tier")
		out   = flag.String("o", "trace.json", "trace")
		opsF  = flag.String("ops", "", "write the calls here")
		in    = flag.String("in", "", "run the sessions of this file instead (a list of sessions)")
		extra = flag.String("extra", "", "run also the sessions of this file")
		dir   = flag.String("dir", "", "scratch directory")
		emit  = flag.String("emit", "", "emission table")
		num   = flag.Int("n", 0, "number of sessions")
		serv  = flag.String("server", "", "the server")
		alph  = flag.String("alphabet", "", "write this alphabet of the models to -o")
		hist  = flag.String("hist", "", "run the histories of this file")
		verb  = flag.Bool("v", false, "keep the log of the code")
	)
	flag.Parse()
	serverBin = *serv
	waiting = serverBin != ""
	if !*verb {
		log.SetOutput(io.Discard)
	}
	bt, err := os.ReadFile(*emit)
	if err == nil {
		err = json.Unmarshal(bt, &emitGold)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "emit:", err)
		os.Exit(3)
	}
	if *prop == "C29" {
		bt, err = os.ReadFile(filepath.Join(filepath.Dir(*emit), "pos.json"))
		if err == nil {
			err = json.Unmarshal(bt, &posGold)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "model of parts of speech:", err)
			os.Exit(3)
		}
	}
	makeModels(rand.New(rand.NewSource(*seed * 77)))

	if *alph != "" {
		writeAlphabet(*alph, *out, *dir)
		return
	}
	var ss []*Session
	if *hist != "" {
		ss = readHistories(*hist, *prop)
	} else if *in != "" {
		readSessions(*in, &ss)
	} else {
		mk := props[*prop]
		if mk == nil {
			fmt.Fprintln(os.Stderr, "no such property", *prop)
			os.Exit(3)
		}
		n := counts[*prop][0]
		if *tier == "thorough" {
			n = counts[*prop][1]
		}
		if *num > 0 {
			n = *num
		}
		for k := 0; k < n; k++ {
			g := newGen(*seed, k, *prop, *tier == "thorough")
			g.session()
			ss = append(ss, mk(g, k))
		}
		ss = append(ss, hugeSessions(*prop, func(k int) *gen {
			g := newGen(*seed, k, *prop, *tier == "thorough")
			g.session()
			return g
		}, 100000)...)
		if *extra != "" {
			readSessions(*extra, &ss)
		}
	}
	if *opsF != "" {
		writeJSON(*opsF, ss)
	}
	runAll(ss, *dir)

	sess := []M{}
	events := 0
	for _, s := range ss {
		ev := s.ev
		if ev == nil && giveUp {
			continue
		}
		if ev == nil {
			ev = []M{}
		}
		events += len(ev)
		m := M{"kind": s.Kind, "ev": ev}
		if *prop == "C25" || *prop == "C26" {
			if m["calls"] = s.calls; s.calls == nil {
				m["calls"] = []M{}
			}
		}
		sess = append(sess, m)
	}
	pm := M{"tags": 0}
	if *prop == "C29" {
		pm = posTables()
	}
	tr := M{"pm": pm, "sp": charID(" "), "sl": charID("/"), "xp": sids("x"), "eng": sids("eng"), "sessions": sess}
	tr["chars"] = charTab
	tr["models"] = modelTables()
	writeJSON(*out, tr)
	fmt.Printf("sessions=%d events=%d chars=%d\n", len(ss), events, len(charTab))
}

func readSessions(file string, ss *[]*Session) {
	bt, err := os.ReadFile(file)
	var l []*Session
	if err == nil {
		err = json.Unmarshal(bt, &l)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, file, err)
		os.Exit(3)
	}
	*ss = append(*ss, l...)
}
