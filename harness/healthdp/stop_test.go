package healthdp

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/braintree/manners"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/httpx"
)

// StopCase is a life of a healthd that ends after Ops.
type StopCase struct {
	Case
	Gets  int   `json:"gets"`  // API requests at the same time as the stop
	First int   `json:"first"` // so many of them (at most 40) just before
	After int   `json:"after"`
	Ns    int64 `json:"ns"` // the stop comes so much later than the last step
}

var stopPaths = []string{"/healthd/aggregations", "/healthd/hosts", "/healthd/jobs?sort=count", "/healthd/aggregations/overall", "/healthd/nope"}

func (c StopCase) run() (err error) {
	if c.D <= 0 || len(c.Hosts) == 0 {
		return nil
	}
	time.Sleep(time.Duration(c.Offset))
	w := &world{c: c.Case, d: time.Duration(c.D), byURL: map[string]*host{}}
	w.tr = &httpx.Transport{Answer: w.answer}
	defer w.tr.Install()()
	w.begin()
	for _, op := range c.Ops {
		h := w.hosts[op.Host%len(w.hosts)]
		switch op.Op {
		case "emit":
			w.emit(h, op.E)
		case "sleep":
			time.Sleep(time.Duration(op.Ns))
		case "set":
			w.mu.Lock()
			h.B = *op.B
			w.mu.Unlock()
		case "restart":
			w.start(h)
		}
	}
	time.Sleep(time.Duration(c.Ns))
	api, _ := manners.Handler(w.addr)
	if api == nil {
		return fmt.Errorf("the API is not served")
	}
	var asked, answered, bad int32
	ask := func(i int) {
		rw := httptest.NewRecorder()
		api.ServeHTTP(rw, httptest.NewRequest("GET", stopPaths[i%len(stopPaths)], nil))
		if rw.Code != http.StatusOK && rw.Code != http.StatusNotFound && rw.Code != http.StatusServiceUnavailable {
			atomic.StoreInt32(&bad, int32(rw.Code))
		}
		atomic.AddInt32(&answered, 1)
	}
	for i := 0; i < c.First; i++ {
		asked++
		go ask(i)
	}
	done := make(chan bool)
	go func() { w.hd.Stop(); close(done) }()
	for i := 0; i < c.Gets; i++ {
		asked++
		go ask(i)
	}
	select {
	case <-done:
	case <-time.After(time.Minute):
		return fmt.Errorf("Stop has not returned after a minute")
	}
	synctest.Wait()
	_, closed := manners.Handler(w.addr)
	if !closed {
		err = fmt.Errorf("the API is still served after Stop has returned")
	}
	n := len(w.tr.Reqs())
	for i := 0; i < c.After; i++ {
		asked++
		go ask(i)
	}
	time.Sleep(20 * time.Second)
	if a := atomic.LoadInt32(&answered); a != asked && err == nil {
		err = fmt.Errorf("%d of %d API requests (%d before or while it stopped, %d later) were answered within 20 s", a, asked, c.First+c.Gets, c.After)
	}
	if bad != 0 && err == nil {
		err = fmt.Errorf("an API request while it stopped was answered with %d", bad)
	}
	// Polls that were going on have ended by now.
	reports := w.sink.Len()
	time.Sleep(5 * time.Minute)
	if m := len(w.tr.Reqs()); m != n && err == nil {
		err = fmt.Errorf("hosts were polled %d times after Stop had returned", m-n)
	}
	if m := w.sink.Len(); m != reports && err == nil {
		err = fmt.Errorf("it has emitted %d times on its stream later than 20 s after Stop had returned", m-reports)
	}
	if m := w.tr.Pending(); m != 0 && err == nil {
		err = fmt.Errorf("%d requests to hosts are going on 5 minutes after Stop", m)
	}
	manners.Forget(w.addr)
	return err
}

func TestC30_healthd(t *testing.T) {
	core.Check(t, core.Sub[StopCase]{
		Bubble: true, Leaks: true,
		Gen: func(t *rapid.T) StopCase {
			var c StopCase
			if core.Chance(t, "many", 1, 6) {
				c.D = 60 * sec
				n := 40 + core.Uniform(t, "hosts", 100)
				b := genBehave(t, gopts{faults: 4})
				for i := 0; i < n; i++ {
					c.Hosts = append(c.Hosts, Host{Name: fmt.Sprintf("h%d:80", i), Retain: 1, B: b})
				}
			} else {
				c.Case = gen(t, gopts{ds: []int64{10 * sec, 60 * sec}, maxHost: 5, faults: 6, names: plain, maxOps: 20, long: 60 * sec,
					ops: []string{"sleep", "sleep", "set", "emit"}})
			}
			c.Ns = core.Pick[int64](t, "stopAt", 0, 0, 1, 1e6, 300e6, sec, 2*sec, 2300e6, 5*sec, 10*sec-1, 10*sec, 10*sec+1, 20*sec) + int64(core.Uniform(t, "stopOdd", 3))*1037
			c.First, c.Gets, c.After = core.Uniform(t, "first", 41), core.Uniform(t, "gets", 41), core.Uniform(t, "after", 4)
			if core.Chance(t, "quiet", 1, 4) {
				c.First, c.Gets = 0, 0
			}
			return c
		},
		Run: StopCase.run,
		Classify: func(c StopCase) (bool, []string) {
			l := label(c.Case)
			if c.First+c.Gets > 0 {
				l = append(l, "requests while stopping")
			}
			return len(c.Ops) > 1 || c.First+c.Gets > 0, l
		},
	})
}
