// Package agg checks the polling sink, its aggregations and its HTTP endpoint (C06 to C11).
package agg

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"pgregory.net/rapid"

	"verif/harness/aggm"
	"verif/harness/core"
)

// Op is an emission, a pause, or a query.
type Op struct {
	Op    string     `json:"op"` // emit, sleep, boundary (sleep until ns relative to the next interval's start), get, http
	E     *aggm.Emit `json:"e,omitempty"`
	Ns    int64      `json:"ns,omitempty"`
	Path  string     `json:"path,omitempty"`
	Query string     `json:"query,omitempty"`
}

// Case is a history of a polling sink.
type Case struct {
	Offset   int64 `json:"offset"` // of the sink's creation
	Zone     int   `json:"zone"`   // local time zone, seconds east
	Interval int64 `json:"interval"`
	Retain   int64 `json:"retain"`
	Ops      []Op  `json:"ops"`
}

type genOpts struct {
	aggm.Opts
	maxOps           int
	gets, https      int // weights out of 100
	sleeps           int
	maxIdleIntervals int
}

func genCase(t *rapid.T, o genOpts) Case {
	sec := int64(time.Second)
	c := Case{
		Offset:   core.Pick(t, "offset", int64(0), int64(1), sec/2, sec-1, 59*sec+sec/2, int64(rapid.Int64Range(0, 3600*sec).Draw(t, "off"))),
		Zone:     core.Pick(t, "zone", 0, 3600, -18000, 5*3600+1800, 12*3600+45*60),
		Interval: core.Pick(t, "interval", sec, 2*sec, 5*sec, 10*sec, 60*sec, 60*sec, 7*sec, 1500*sec/1000, 300*sec, 3600*sec, sec+int64(core.Uniform(t, "odd", 100000))*100000),
	}
	switch core.Uniform(t, "retainKind", 5) {
	case 0:
		c.Retain = c.Interval * 5
	case 1:
		c.Retain = c.Interval * int64(1+core.Uniform(t, "k", 12))
	case 2:
		c.Retain = c.Interval*int64(core.Uniform(t, "k", 8)) + int64(core.Uniform(t, "part", 1000))*c.Interval/1000
	case 3:
		c.Retain = c.Interval * int64(1+core.Uniform(t, "k", 200))
	default:
		c.Retain = c.Interval / int64(1+core.Uniform(t, "div", 4))
	}
	if c.Retain < 1 {
		c.Retain = 1
	}
	budget := int64(12000) * sec // of idle time, since the sink ticks every second
	n := core.Len(t, "len", 1, o.maxOps)
	for i := 0; i < n; i++ {
		switch k := core.Uniform(t, "kind", 100); {
		case k < o.gets:
			c.Ops = append(c.Ops, Op{Op: "get"})
		case k < o.gets+o.https:
			op := Op{Op: "http", Path: "/health"}
			if core.Chance(t, "otherPath", 1, 3) {
				op.Path = core.Pick(t, "path", "/", "/health/", "/healthz", "/Health", "/HEALTH", "/heal", "/health/x", "/x/health", "//health", "/%2fhealth", "/wat", "/he%61lth2", "/health.json", "/"+core.Name(t, "seg", core.NameOpts{}))
			}
			if core.Chance(t, "query", 1, 4) {
				op.Query = core.Pick(t, "q", "a=b", "x", "path=/health", "%")
			}
			c.Ops = append(c.Ops, op)
		case k < o.gets+o.https+o.sleeps:
			op := Op{Op: "sleep"}
			switch core.Uniform(t, "sleepKind", 8) {
			case 0:
				op.Ns = c.Interval
			case 1:
				op.Ns = int64(rapid.Int64Range(0, c.Interval).Draw(t, "ns"))
			case 2:
				op.Ns = c.Interval * int64(1+core.Uniform(t, "m", o.maxIdleIntervals))
			case 3:
				op.Ns = sec * int64(1+core.Uniform(t, "m", 5))
			case 4, 5:
				op.Op = "boundary"
				op.Ns = core.Pick(t, "rel", int64(-1), int64(0), int64(0), int64(1), -sec, sec/2)
			case 6:
				op.Ns = c.Retain + core.Pick(t, "rel", -c.Interval, int64(-1), int64(0), int64(1), c.Interval)
			default:
				op.Ns = core.Nanos(t, "ns", false) % (3 * c.Interval)
			}
			if op.Op == "sleep" {
				if op.Ns < 0 {
					op.Ns = 0
				}
				if op.Ns > budget {
					op.Ns = budget
				}
				budget -= op.Ns
			} else if budget < c.Interval {
				continue
			} else {
				budget -= c.Interval
			}
			c.Ops = append(c.Ops, op)
		default:
			e := aggm.Gen(t, o.Opts)
			c.Ops = append(c.Ops, Op{Op: "emit", E: &e})
		}
	}
	c.Ops = append(c.Ops, Op{Op: "get"})
	return c
}

type snapshot struct {
	op     int
	at     time.Time
	live   []*health.IntervalAggregation
	copied []*aggm.Interval
	// the model's state at the time
	want map[int64]*aggm.Interval // by start, all intervals in which something was emitted
}

type httpResult struct {
	op   Op
	code int
	ct   string
	body []byte
	snapshot
}

type history struct {
	c       Case
	created time.Time
	snaps   []snapshot
	https   []httpResult
}

func (c Case) run() *history {
	h := &history{c: c}
	time.Sleep(time.Duration(c.Offset))
	if time.Local.String() != "UTC" || c.Zone != 0 {
		old := time.Local
		time.Local = time.FixedZone("local", c.Zone)
		defer func() { time.Local = old }()
	}
	h.created = time.Now()
	iv := time.Duration(c.Interval)
	sink := health.NewJsonPollingSink(iv, time.Duration(c.Retain))
	defer func() {
		synctest.Wait()
		sink.ShutdownServer()
	}()
	model := map[int64]*aggm.Interval{}
	note := func(i int) snapshot {
		s := snapshot{op: i, at: time.Now(), want: map[int64]*aggm.Interval{}}
		for k, v := range model {
			s.want[k] = v.Clone()
			s.want[k].Changes, s.want[k].Maybe = v.Changes, v.Maybe
		}
		return s
	}
	for i, op := range c.Ops {
		switch op.Op {
		case "sleep":
			time.Sleep(time.Duration(op.Ns))
		case "boundary":
			n := time.Now()
			next := n.Truncate(iv).Add(iv + time.Duration(op.Ns))
			if next.After(n) {
				time.Sleep(next.Sub(n))
			}
		case "emit":
			start := time.Now().Truncate(iv)
			m := model[start.UnixNano()]
			if m == nil {
				m = aggm.New(start)
				model[start.UnixNano()] = m
			}
			m.Add(*op.E)
			op.E.To(sink, nil)
			synctest.Wait()
		case "get":
			synctest.Wait()
			s := note(i)
			s.live = sink.GetMetrics()
			for _, ia := range s.live {
				s.copied = append(s.copied, aggm.From(ia))
			}
			h.snaps = append(h.snaps, s)
		case "http":
			synctest.Wait()
			r := httpResult{op: op, snapshot: note(i)}
			url := op.Path
			if op.Query != "" {
				url += "?" + op.Query
			}
			req, err := http.NewRequest("GET", "http://host"+escape(op.Path), nil)
			if err != nil {
				continue
			}
			req.URL.RawQuery = op.Query
			rw := httptest.NewRecorder()
			sink.ServeHTTP(rw, req)
			r.code, r.ct, r.body = rw.Code, rw.Header().Get("Content-Type"), rw.Body.Bytes()
			r.op.Path = req.URL.Path
			h.https = append(h.https, r)
			_ = url
		}
	}
	return h
}

func escape(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		ch := p[i]
		if ch == '%' && i+2 < len(p) && isHex(p[i+1]) && isHex(p[i+2]) || ch == '/' || ch == '.' || ch == '-' || ch == '_' || ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' {
			b.WriteByte(ch)
		} else {
			fmt.Fprintf(&b, "%%%02X", ch)
		}
	}
	return b.String()
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// window is the range of interval starts that may be retained, and the first one that must be.
func (h *history) window(at time.Time) (oldest, current time.Time, max int64) {
	iv := time.Duration(h.c.Interval)
	current = at.Truncate(iv)
	max = h.c.Retain / h.c.Interval
	if max < 1 {
		max = 1
	}
	oldest = current.Add(-time.Duration(max-1) * iv)
	return
}

// checkWindow is C07.
func (h *history) checkWindow(e *core.Errs, s snapshot, starts []time.Time) {
	iv := time.Duration(h.c.Interval)
	oldest, current, max := h.window(s.at)
	if len(starts) == 0 {
		e.Addf("op %d: no interval at all", s.op)
		return
	}
	if int64(len(starts)) > max {
		e.Addf("op %d: %d intervals, at most %d fit in %v", s.op, len(starts), max, time.Duration(h.c.Retain))
	}
	have := map[int64]bool{}
	for i, st := range starts {
		if !st.Truncate(iv).Equal(st) {
			e.Addf("op %d: interval %d starts at %v, which is no multiple of %v", s.op, i, st, iv)
		}
		if i > 0 && !starts[i-1].Before(st) {
			e.Addf("op %d: interval %d (%v) does not come after interval %d (%v)", s.op, i, st, i-1, starts[i-1])
		}
		if st.Before(oldest) {
			e.Addf("op %d: interval %v is older than the window, which starts at %v", s.op, st, oldest)
		}
		have[st.UnixNano()] = true
	}
	if last := starts[len(starts)-1]; !last.Equal(current) {
		e.Addf("op %d: the last interval starts at %v, want the current one, %v", s.op, last, current)
	}
	first := h.created.Truncate(iv).Add(iv) // the sink's first interval may be missing if nothing was emitted in it
	for st := oldest; !st.After(current); st = st.Add(iv) {
		w := s.want[st.UnixNano()]
		if (w != nil && w.Changes > 0 || !st.Before(first)) && !have[st.UnixNano()] {
			e.Addf("op %d: interval %v is missing", s.op, st)
		}
	}
}

// checkContents is C06.
func (h *history) checkContents(e *core.Errs, s snapshot, got []*aggm.Interval) {
	oldest, current, _ := h.window(s.at)
	have := map[int64]bool{}
	for _, iv := range got {
		w := s.want[iv.Start.UnixNano()]
		if w == nil {
			w = aggm.New(iv.Start)
		}
		aggm.Diff(e, fmt.Sprintf("op %d: interval %v", s.op, iv.Start.UTC().Format(time.RFC3339Nano)), iv, w)
		if have[iv.Start.UnixNano()] {
			e.Addf("op %d: interval %v is there twice", s.op, iv.Start)
		}
		have[iv.Start.UnixNano()] = true
	}
	var ks []int64
	for k := range s.want {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		w := s.want[k]
		if w.Changes > 0 && !w.Start.Before(oldest) && !w.Start.After(current) && !have[k] {
			e.Addf("op %d: the data of interval %v is missing", s.op, w.Start)
		}
	}
}
