package healthdp

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/braintree/manners"
	"pgregory.net/rapid"

	"verif/harness/aggm"
	"verif/harness/core"
	"verif/harness/httpx"
)

// ConcCase is a history whose API requests ("burst") come from N goroutines at once, Rep each, at the very moment a
// poll starts or ends or its results are worked on.
type ConcCase struct {
	Case
	Procs int `json:"procs"`
	Each  int `json:"each"`
}

var concPaths = []string{"/healthd/aggregations", "/healthd/hosts", "/healthd/jobs?sort=count", "/healthd/aggregations/overall", "/healthd/jobs?sort=avg&limit=2", "/healthd/nope"}

type reply struct {
	path string
	code int
	body []byte
}

// burst asks in parallel. Nothing in it synchronises the goroutines.
func (w *world) burst(n, each, shift int, at time.Time) error {
	api, _ := manners.Handler(w.addr)
	if api == nil {
		return fmt.Errorf("the API is not served")
	}
	replies := make([][]reply, n)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Until(at))
			for i := 0; i < each; i++ {
				p := concPaths[(shift+g*(1+shift%3)+i)%len(concPaths)]
				rw := httptest.NewRecorder()
				api.ServeHTTP(rw, httptest.NewRequest("GET", p, nil))
				replies[g] = append(replies[g], reply{p, rw.Code, rw.Body.Bytes()})
				if shift%2 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Until(at) + 20*time.Second):
		return fmt.Errorf("concurrent API requests were not answered within 20 s")
	}
	for g, rs := range replies {
		last := map[int64]*aggm.Interval{}
		for i, r := range rs {
			what := fmt.Sprintf("request %d (%s) of %d goroutines' number %d", i, r.path, n, g)
			if want := map[bool]int{false: http.StatusOK, true: http.StatusNotFound}[r.path == "/healthd/nope"]; r.code != want {
				return fmt.Errorf("%s: status %d", what, r.code)
			}
			if !json.Valid(r.body) {
				return fmt.Errorf("%s: invalid JSON: %.300q", what, r.body)
			}
			if r.path != "/healthd/aggregations" {
				continue
			}
			var resp struct {
				Aggregations []*aggm.Interval `json:"aggregations"`
			}
			if err := aggm.Decode(r.body, &resp); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			now := map[int64]*aggm.Interval{}
			for _, iv := range resp.Aggregations {
				if iv == nil {
					return fmt.Errorf("%s: null interval", what)
				}
				now[iv.Start.UnixNano()] = iv
				if old := last[iv.Start.UnixNano()]; old != nil {
					for k, v := range old.Events {
						if iv.Events[k] < v {
							return fmt.Errorf("%s: event %q of %v was %d, but is %d now", what, k, iv.Start, v, iv.Events[k])
						}
					}
					for k, j := range old.Jobs {
						if iv.Jobs[k] == nil || iv.Jobs[k].Count < j.Count {
							return fmt.Errorf("%s: job %q of %v has fewer runs than before", what, k, iv.Start)
						}
					}
				}
			}
			last = now
		}
	}
	return nil
}

func (c ConcCase) run() (err error) {
	if c.D <= 0 || len(c.Hosts) == 0 {
		return nil
	}
	if c.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	time.Sleep(time.Duration(c.Offset))
	w := &world{c: c.Case, d: time.Duration(c.D), byURL: map[string]*host{}}
	w.tr = &httpx.Transport{Answer: w.answer}
	defer w.tr.Install()()
	w.begin()
	defer func() {
		if e := w.end(); err == nil {
			err = e
		}
	}()
	o := opts{data: true, hosts: true, badHosts: true, polls: true}
	for i, op := range c.Ops {
		h := w.hosts[op.Host%len(w.hosts)]
		switch op.Op {
		case "emit":
			w.emit(h, op.E)
		case "sleep":
			time.Sleep(time.Duration(op.Ns))
		case "set":
			w.mu.Lock()
			h.B = *op.B
			w.mu.Unlock()
		case "restart":
			w.start(h)
		case "query":
			// Ns after the last or the next poll of all hosts.
			at := time.Now().Add(-(time.Since(w.t0) % (10 * time.Second)) + time.Duration(op.Ns))
			if at.Before(time.Now()) {
				at = at.Add(10 * time.Second)
			}
			if err := w.burst(2+op.N%7, c.Each, op.N, at); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		}
	}
	time.Sleep(10*time.Second - time.Since(w.t0)%(10*time.Second) + 9*time.Second)
	if err := w.query(Op{Op: "query"}, o); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	return nil
}

func TestC12_healthd(t *testing.T) {
	core.Check(t, core.Sub[ConcCase]{
		Bubble: true, Leaks: true,
		Gen: func(t *rapid.T) ConcCase {
			c := ConcCase{Case: gen(t, gopts{ds: []int64{10 * sec, 60 * sec, 5 * sec}, maxHost: 6, faults: 2, names: plain, maxOps: 20, long: 60 * sec,
				ops: []string{"sleep", "set", "emit", "emit", "emit", "query", "query", "restart"}}),
				Procs: core.Pick(t, "procs", 2, 4, 4, 8), Each: 1 + core.Uniform(t, "each", 12)}
			// answers at common moments
			for i := range c.Hosts {
				if c.Hosts[i].B.Kind == "ok" && core.Chance(t, "same", 2, 3) {
					c.Hosts[i].B.Delay = core.Pick[int64](t, "sameDelay", 0, 0, sec)
				}
			}
			if core.Chance(t, "atFirst", 1, 2) {
				c.Ops = append([]Op{{Op: "query"}}, c.Ops...)
			}
			for i := range c.Ops {
				op := &c.Ops[i]
				if op.Op == "query" {
					op.Sort, op.Lim, op.Path = "", "", ""
					op.N = core.Uniform(t, "burst", 42)
					b := c.Hosts[core.Uniform(t, "of", len(c.Hosts))].B
					op.Ns = core.Pick[int64](t, "at", 0, b.Delay, b.Delay, b.Delay+300e6, b.Delay+2*sec, b.Delay+2300e6, sec/2)
				}
			}
			return c
		},
		Run: ConcCase.run,
		Classify: func(c ConcCase) (bool, []string) {
			return has(c.Case, "emit") > 0 && has(c.Case, "query") > 0, label(c.Case)
		},
	})
}
