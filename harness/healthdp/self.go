package healthdp

import (
	"fmt"
	"net/url"
	"strings"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"

	"verif/harness/core"
	"verif/harness/rec"
)

// apiReq is an API request that has been made.
type apiReq struct {
	path string
	at   time.Time
}

var endpoints = map[string]bool{"/healthd/aggregations": true, "/healthd/aggregations/overall": true, "/healthd/jobs": true, "/healthd/hosts": true}

// causes are the error events that may tell about a poll.
func causes(p *poll) string {
	switch {
	case p.b.Kind == "refused" || p.b.Kind == "reset" || p.b.Kind == "hang":
		return "poll.client.get"
	case p.status == 0:
		return "poll.client.get poll.ioutil.read_all" // (the time limit may be over at any point)
	case p.b.Kind == "hangBody" || p.b.Kind == "cutBody":
		return "poll.ioutil.read_all"
	case p.b.Kind == "hugeBody":
		return "poll.client.get poll.ioutil.read_all poll.json.unmarshall"
	case p.b.Kind == "mangle" && p.b.How == "cut":
		return "poll.json.unmarshall"
	}
	return "poll.json.unmarshall poll.validate"
}

// checkSelf compares what healthd says on its stream with the polls and API requests that there were.
func (w *world) checkSelf(op Op) error {
	// some requests
	for i, p := range []string{"/healthd/jobs?sort=count", "/healthd/hosts", "/healthd/aggregations", "/healthd/aggregations/overall"} {
		if i == 0 || op.Lim == "" {
			if _, err := w.get(p); err != nil {
				return err
			}
		}
	}
	if op.Path != "" {
		if err := w.check404(op.Path); err != nil {
			return err
		}
	}
	synctest.Wait()
	ps, settled, _ := w.done()
	w.mu.Lock()
	defer w.mu.Unlock()
	calls := w.sink.Calls // (nothing else runs)
	var e core.Errs

	// polls
	type outcome struct {
		status health.CompletionStatus
		n      int
	}
	byPoll := map[string][]rec.Call{}
	errs := map[time.Time][]rec.Call{}
	failed := map[time.Time]int{}
	key := func(host string, at time.Time) string { return fmt.Sprint(at.UnixNano(), " ", host) }
	recalcs := []time.Time{}
	for _, c := range calls {
		switch c.Job {
		case "poll":
			switch c.Kind {
			case "complete":
				byPoll[key(c.Kvs["host_port"], c.At)] = append(byPoll[key(c.Kvs["host_port"], c.At)], c)
				if c.Status == health.Error {
					failed[c.At]++
				} else if c.Status != health.Success {
					e.Addf("a poll of %q completed with status %v", c.Kvs["host_port"], c.Status)
				}
			case "eventErr":
				errs[c.At] = append(errs[c.At], c)
			}
		case "recalculate":
			if c.Kind == "complete" {
				recalcs = append(recalcs, c.At)
				if c.Status != health.Success {
					e.Addf("a recalculation completed with status %v", c.Status)
				}
			}
		}
	}
	allowed := map[time.Time][]string{}
	lastGood := time.Time{}
	for i, p := range ps {
		k := key(p.h.Name, p.finish())
		cs := byPoll[k]
		delete(byPoll, k)
		if len(cs) != 1 {
			e.Addf("a poll of %s from %v to %v is reported as %d completions", p.h.Name, p.r.At.Sub(w.t0), p.finish().Sub(w.t0), len(cs))
			continue
		}
		c := cs[0]
		if p.errd == 0 && c.Status != health.Success || p.errd == 1 && c.Status != health.Error {
			e.Addf("a poll of %s of kind %s (%d) is reported with status %v", p.h.Name, p.b.Kind, p.status, c.Status)
		}
		if want := p.finish().Sub(p.r.At).Nanoseconds(); c.Nanos != want {
			e.Addf("a poll of %s of kind %s took %d, but is reported with %d", p.h.Name, p.b.Kind, want, c.Nanos)
		}
		if c.Status == health.Error {
			allowed[p.finish()] = append(allowed[p.finish()], causes(p))
		}
		if p.valid && i < settled {
			lastGood = p.finish()
		}
	}
	for k, cs := range byPoll {
		e.Addf("a completion of a poll that there was not: %s: %v", k, cs[0])
	}
	for at, n := range failed {
		if len(errs[at]) != n {
			e.Addf("%d failed polls at %v, but %d error events: %v", n, at.Sub(w.t0), len(errs[at]), errs[at])
			continue
		}
		for _, c := range errs[at] {
			if c.Err == nil || c.Err.Error() == "" {
				e.Addf("an error event of a poll without an error: %v", c)
			}
		}
		if !assignable(errs[at], allowed[at]) {
			e.Addf("at %v polls failed with %q, but the events are %v", at.Sub(w.t0), allowed[at], errs[at])
		}
	}
	for at, cs := range errs {
		if failed[at] == 0 {
			e.Addf("an error event without a failed poll at %v: %v", at.Sub(w.t0), cs)
		}
	}
	if !lastGood.IsZero() {
		ok := false
		for _, at := range recalcs {
			ok = ok || !at.Before(lastGood)
		}
		if !ok {
			e.Addf("no recalculation has been reported since the data of %v", lastGood.Sub(w.t0))
		}
	}

	// requests
	var want, got []string
	for _, r := range w.reqs {
		u, err := url.Parse(r.path)
		if err != nil || !endpoints[u.Path] {
			continue
		}
		want = append(want, fmt.Sprint(u.Path, " start ", r.at.UnixNano()), fmt.Sprint(u.Path, " complete ", r.at.UnixNano(), " 0 200"))
	}
	for _, c := range calls {
		if !endpoints[c.Job] {
			continue
		}
		if c.Kvs["path"] != c.Job {
			e.Addf("path is not %s: %v", c.Job, c)
		}
		switch {
		case c.Kind == "event" && c.Event == "starting_request":
			got = append(got, fmt.Sprint(c.Job, " start ", c.At.UnixNano()))
		case c.Kind == "complete":
			got = append(got, fmt.Sprint(c.Job, " complete ", c.At.UnixNano(), " ", c.Nanos, " ", c.Kvs["code"]))
			if c.Status != health.Success {
				e.Addf("a request that was answered with %s is reported with status %v", c.Kvs["code"], c.Status)
			}
		default:
			e.Addf("unexpected report of a request: %v", c)
		}
	}
	count := map[string]int{}
	for _, s := range want {
		count[s]++
	}
	for _, s := range got {
		count[s]--
	}
	for s, n := range count {
		if n > 0 {
			e.Addf("request not reported: %s", s)
		} else if n < 0 {
			e.Addf("request reported, but not made: %s", s)
		}
	}
	return e.Err()
}

// assignable tells whether the events can be assigned to failed polls, given the events that each may have.
func assignable(events []rec.Call, may []string) bool {
	of := make([]int, len(events)) // 1 + the poll that an event is assigned to
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool {
		for k, c := range events {
			if seen[k] || !strings.Contains(" "+may[i]+" ", " "+c.Event+" ") {
				continue
			}
			seen[k] = true
			if of[k] == 0 || try(of[k]-1, seen) {
				of[k] = i + 1
				return true
			}
		}
		return false
	}
	for i := range may {
		if !try(i, make([]bool, len(events))) {
			return false
		}
	}
	return true
}
