package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	osexec "os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var serverBin string

type request struct {
	op   *Op
	s, e time.Duration
	body []byte
	err  string
}

// server runs the server of the repository on the loopback address, and clients of it.
func (x *exec) server(op *Op) bool {
	x.nf++
	dir := filepath.Join(x.dir, fmt.Sprintf("srv%d", x.nf))
	dict := filepath.Join(dir, "dict.txt")
	if os.MkdirAll(filepath.Join(dir, "static"), 0o755) != nil || os.WriteFile(dict, op.T, 0o644) != nil {
		panic(harnessBug)
	}
	base, stop, errs := "", func() {}, &bytes.Buffer{}
	for try := 0; try < 5 && base == ""; try++ {
		errs.Reset()
		base, stop = startServer(dir, dict, op.H, errs)
	}
	if base == "" {
		fmt.Fprintln(os.Stderr, "harness: the server does not start\n"+errs.String())
		os.Exit(3)
	}
	x.emit(M{"op": "new", "g": 1, "c": (&Cfg{}).event()})
	x.emit(M{"op": "load", "g": 1, "how": "file", "files": []M{{"ok": true, "txt": ids(op.T)}}, "nums": nums("", string(op.T)), "err": false})

	t0 := time.Now()
	out := make([][]request, len(op.Th))
	var wg sync.WaitGroup
	ready := make(chan bool)
	for k := range op.Th {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			c := &http.Client{Transport: &http.Transport{DisableKeepAlives: !op.By}, Timeout: 40 * time.Second}
			<-ready
			for q := range op.Th[k] {
				o := &op.Th[k][q]
				if o.Us > 0 {
					time.Sleep(time.Duration(o.Us) * time.Microsecond)
				}
				r := request{op: o, s: time.Since(t0)}
				r.body, r.err = ask(c, base, o)
				r.e = time.Since(t0)
				out[k] = append(out[k], r)
				if r.err != "" {
					return
				}
			}
		}(k)
	}
	over, others := make(chan bool), sync.WaitGroup{}
	for k := 0; k < op.N; k++ { // their requests change nothing
		others.Add(1)
		go func(k int) {
			defer others.Done()
			c := &http.Client{Transport: &http.Transport{}, Timeout: 40 * time.Second}
			for {
				select {
				case <-over:
					return
				default:
					ask(c, base, &Op{Fn: "json", T: b("龘龘")})
				}
			}
		}(k)
	}
	close(ready)
	wg.Wait()
	close(over)
	others.Wait()
	stop()
	if strings.Contains(errs.String(), "DATA RACE") || strings.Contains(errs.String(), "fatal error") || strings.Contains(errs.String(), "panic") {
		os.Stderr.WriteString(errs.String())
	}

	type mark struct {
		at  time.Duration
		end bool
		c   int
	}
	var marks []mark
	for _, l := range out {
		for _, r := range l {
			giveUp = giveUp || strings.Contains(r.err, "Timeout")
			c := M{"op": "c", "k": "add", "ok": false, "t": sids(string(r.op.T)), "f": 0, "p": sids(string(r.op.P)), "r": []M{}, "w": [][]int{}, "msg": r.err}
			if r.op.Fn == "add" {
				if v, err := strconv.ParseFloat(string(r.op.Sep), 64); err == nil {
					c["f"] = q4(v)
				}
				var a struct {
					Code int
					Text string
				}
				c["ok"] = r.err == "" && json.Unmarshal(r.body, &a) == nil && a.Code == 200 && a.Text == "ok"
			} else if op.H {
				c["k"] = "cut"
				var a struct{ Seg []string }
				c["ok"] = r.err == "" && json.Unmarshal(r.body, &a) == nil
				c["w"] = lids(a.Seg)
			} else {
				c["k"] = "seg"
				var a struct {
					Segments []struct{ Text, Pos string }
				}
				c["ok"] = r.err == "" && json.Unmarshal(r.body, &a) == nil && a.Segments != nil
				ss := []M{}
				for _, v := range a.Segments {
					ss = append(ss, M{"t": sids(v.Text), "p": sids(v.Pos)})
				}
				c["r"] = ss
			}
			x.calls = append(x.calls, c)
			marks = append(marks, mark{r.s, false, len(x.calls)}, mark{r.e, true, len(x.calls)})
		}
	}
	sort.SliceStable(marks, func(a, b int) bool {
		if marks[a].at != marks[b].at {
			return marks[a].at < marks[b].at
		}
		return !marks[a].end && marks[b].end
	})
	for _, m := range marks {
		x.emit(M{"op": map[bool]string{false: "inv", true: "ret"}[m.end], "c": m.c})
	}
	return true
}

func startServer(dir, dict string, hmm bool, errs *bytes.Buffer) (base string, stop func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", nil
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	args := []string{"-host", "127.0.0.1", "-port", strconv.Itoa(port), "-dict", dict, "-static_folder", filepath.Join(dir, "static")}
	if hmm {
		args = append(args, "-hmm")
	}
	cmd := osexec.Command(serverBin, args...)
	cmd.Dir, cmd.Stderr, cmd.Stdout = dir, errs, io.Discard
	if cmd.Start() != nil {
		return "", nil
	}
	dead := make(chan bool)
	go func() { cmd.Wait(); close(dead) }()
	stop = func() {
		cmd.Process.Kill()
		<-dead
	}
	for k := 0; k < 300; k++ {
		c, err := net.DialTimeout("tcp", "127.0.0.1:"+strconv.Itoa(port), time.Second)
		if err == nil {
			c.Close()
			return "http://127.0.0.1:" + strconv.Itoa(port), stop
		}
		select {
		case <-dead:
			return "", nil
		case <-time.After(30 * time.Millisecond):
		}
	}
	stop()
	return "", nil
}

func ask(c *http.Client, base string, o *Op) (body []byte, msg string) {
	q := url.Values{"text": {string(o.T)}}
	var r *http.Response
	var err error
	switch {
	case o.Fn == "add":
		if len(o.Sep) > 0 {
			q.Set("freq", string(o.Sep))
		}
		if len(o.P) > 0 {
			q.Set("pos", string(o.P))
		}
		r, err = c.Get(base + "/add?" + q.Encode())
	case o.V:
		r, err = c.PostForm(base+"/json", q)
	default:
		r, err = c.Get(base + "/json?" + q.Encode())
	}
	if err != nil {
		return nil, "request: " + err.Error()
	}
	defer r.Body.Close()
	body, err = io.ReadAll(r.Body)
	if err != nil {
		return nil, "answer: " + err.Error()
	}
	if r.StatusCode != 200 {
		return nil, "status " + r.Status
	}
	return body, ""
}
