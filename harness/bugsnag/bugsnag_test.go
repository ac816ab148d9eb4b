// Package bugsnag checks the Bugsnag sink: what it posts, as seen by a recording transport, against what was emitted.
package bugsnag

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/stack"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/httpx"
	"verif/harness/symb"
)

// Config is the sink's configuration.
type Config struct {
	APIKey   core.Str `json:"key"`
	Endpoint core.Str `json:"endpoint,omitempty"`
	Stage    core.Str `json:"stage,omitempty"`
	Version  core.Str `json:"version,omitempty"`
	Host     core.Str `json:"host,omitempty"`
}

// Op is a step.
type Op struct {
	Op  string   `json:"op"` // err, errKv, event, timing, gauge, complete, kv, skv, sleep, mutate
	S   int      `json:"s,omitempty"`
	J   int      `json:"j,omitempty"` // 0: the stream
	Ev  core.Str `json:"ev,omitempty"`
	Err string   `json:"err,omitempty"` // plain, incomparable, muted, again, mutedAgain, handmade, handmadeMuted
	Msg core.Str `json:"msg,omitempty"`
	Ref int      `json:"ref,omitempty"`
	Kvs core.Kvs `json:"kvs,omitempty"`
	Ns  int64    `json:"ns,omitempty"`
	At  int      `json:"at,omitempty"` // call site
	Rep int      `json:"rep,omitempty"`
}

// Case is streams with jobs, each with one Bugsnag sink (the first two streams may share one) or two.
type Case struct {
	Config  Config         `json:"config"`
	Shared  bool           `json:"shared,omitempty"`
	Jobs    []core.Str     `json:"jobs"`
	Ops     []Op           `json:"ops"`
	Answers []httpx.Answer `json:"answers,omitempty"` // cycled
}

func init() { core.Quiet() }

type listErr struct{ l []string }

func (l listErr) Error() string { return strings.Join(l.l, "") }

type frame struct {
	file, fn string
	line     int
}

// report is an expected report.
type report struct {
	op     int
	job    string
	event  string
	msg    string
	kvs    map[string]string
	frames []frame // nil: none
	at     time.Time
}

// grab notes the stack of its caller, as an argument of the call under test.
func grab(to *[]frame, err error) error {
	pcs := make([]uintptr, 500)
	n := runtime.Callers(2, pcs)
	fs := runtime.CallersFrames(pcs[:n])
	*to = nil
	for {
		f, more := fs.Next()
		if f.PC == 0 {
			break
		}
		*to = append(*to, frame{f.File, f.Function, f.Line})
		if !more {
			break
		}
	}
	return err
}

type emitter interface {
	health.EventReceiver
}

type recvr struct{ em emitter }

func (r recvr) val(kv bool, ev string, err error, kvs map[string]string, to *[]frame) error {
	if kv {
		return r.em.EventErrKv(ev, grab(to, err), kvs)
	}
	return r.em.EventErr(ev, grab(to, err))
}

func (r *recvr) ptr(kv bool, ev string, err error, kvs map[string]string, to *[]frame) error {
	if kv {
		return r.em.EventErrKv(ev, grab(to, err), kvs)
	}
	return r.em.EventErr(ev, grab(to, err))
}

func generic[T any](em emitter, x T, kv bool, ev string, err error, kvs map[string]string, to *[]frame) error {
	if kv {
		return em.EventErrKv(ev, grab(to, err), kvs)
	}
	return em.EventErr(ev, grab(to, err))
}

//go:noinline
func rec(n int, f func() error) error {
	if n == 0 {
		return f()
	}
	return rec(n-1, f)
}

func callSite(em emitter, n int, kv bool, ev string, err error, kvs map[string]string, to *[]frame) error {
	switch n % 7 {
	case 6:
		var ret error
		symb.Call(n/7, func() { ret = recvr{em}.val(kv, ev, err, kvs, to) })
		return ret
	case 0:
		return recvr{em}.val(kv, ev, err, kvs, to)
	case 1:
		return (&recvr{em}).ptr(kv, ev, err, kvs, to)
	case 2:
		return generic(em, "", kv, ev, err, kvs, to)
	case 3:
		return rec(3+n*7, func() error { return recvr{em}.val(kv, ev, err, kvs, to) })
	case 4:
		ch := make(chan error)
		go func() { ch <- generic(em, 1.5, kv, ev, err, kvs, to) }()
		return <-ch
	default:
		return func() (ret error) {
			defer func() {
				ret = (&recvr{em}).ptr(kv, ev, err, kvs, to)
			}()
			return nil
		}()
	}
}

func merged(ms ...map[string]string) map[string]string {
	out := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

type world struct {
	tr    *httpx.Transport
	sinks []*bugsnag.Sink
	want  [][]report // per sink
}

func (c Case) config(i int) *bugsnag.Config {
	cfg := &bugsnag.Config{APIKey: string(c.Config.APIKey) + fmt.Sprint(i), Endpoint: string(c.Config.Endpoint), ReleaseStage: string(c.Config.Stage), AppVersion: string(c.Config.Version), Hostname: string(c.Config.Host)}
	return cfg
}

// run executes the ops and returns what each sink must report.
func (c Case) run(patience time.Duration) *world {
	w := &world{}
	w.tr = &httpx.Transport{Limit: 20000, Answer: func(i int, r *httpx.Req) httpx.Answer {
		if len(c.Answers) == 0 {
			return httpx.Answer{Kind: "ok"}
		}
		return c.Answers[i%len(c.Answers)]
	}}
	defer w.tr.Install()()

	nStreams := 3
	streams := make([]*health.Stream, nStreams)
	jobs := make([][]*health.Job, nStreams)
	attached := make([][]int, nStreams)
	skvs := make([]map[string]string, nStreams)
	jkvs := make([][]map[string]string, nStreams)
	for i := 0; i < 3; i++ {
		w.sinks = append(w.sinks, bugsnag.NewSink(c.config(i)))
	}
	w.want = make([][]report, 3)
	for s := range streams {
		streams[s] = health.NewStream()
		ids := []int{s}
		if s == 1 && c.Shared {
			ids = []int{0}
		}
		if s == 2 {
			ids = []int{2, 1}
		}
		for _, id := range ids {
			streams[s].AddSink(w.sinks[id])
		}
		attached[s] = ids
		skvs[s] = map[string]string{}
		for _, n := range c.Jobs {
			jobs[s] = append(jobs[s], streams[s].NewJob(string(n)))
			jkvs[s] = append(jkvs[s], map[string]string{})
		}
	}
	type old struct{ err error }
	var olds []old
	for i, op := range c.Ops {
		var em emitter = streams[op.S]
		job := "general"
		var jk map[string]string
		if op.J > 0 && op.J <= len(jobs[op.S]) {
			em = jobs[op.S][op.J-1]
			job = string(c.Jobs[op.J-1])
			jk = jkvs[op.S][op.J-1]
		}
		rep := op.Rep
		if rep < 1 {
			rep = 1
		}
		switch op.Op {
		case "sleep":
			time.Sleep(time.Duration(op.Ns))
		case "skv":
			for _, kv := range op.Kvs {
				streams[op.S].KeyValue(string(kv.K), string(kv.V))
				skvs[op.S][string(kv.K)] = string(kv.V)
			}
		case "kv":
			for _, kv := range op.Kvs {
				if j, ok := em.(*health.Job); ok {
					j.KeyValue(string(kv.K), string(kv.V))
					jk[string(kv.K)] = string(kv.V)
				}
			}
		case "event":
			em.EventKv(string(op.Ev), op.Kvs.Map())
		case "timing":
			em.Timing(string(op.Ev), op.Ns)
		case "gauge":
			em.Gauge(string(op.Ev), float64(op.Ns))
		case "complete":
			if j, ok := em.(*health.Job); ok {
				j.Complete(health.Panic)
			} else {
				streams[op.S].Complete(health.Error)
			}
		case "err", "errKv":
			for r := 0; r < rep; r++ {
				msg := string(op.Msg)
				if rep > 1 {
					msg += fmt.Sprint(r)
				}
				var in error
				reported, handmade := true, false
				switch op.Err {
				case "muted":
					in, reported = health.Mute(errors.New(msg)), false
				case "incomparable":
					in = listErr{[]string{msg}}
				case "again":
					if len(olds) > 0 {
						in, reported = olds[op.Ref%len(olds)].err, false
					}
				case "mutedAgain":
					if len(olds) > 0 {
						in, reported = health.Mute(olds[op.Ref%len(olds)].err), false
					}
				case "handmade":
					in, handmade = &health.UnmutedError{Err: errors.New(msg)}, true
				}
				if in == nil {
					in = errors.New(msg)
				}
				var kvs map[string]string
				if op.Op == "errKv" {
					kvs = op.Kvs.Map()
				}
				var fr []frame
				rp := report{op: i, job: job, event: string(op.Ev), msg: msg, kvs: merged(skvs[op.S], jk, kvs), at: time.Now()}
				ret := callSite(em, op.At, op.Op == "errKv", string(op.Ev), in, kvs, &fr)
				if !handmade {
					rp.frames = fr
				}
				if reported {
					for _, id := range attached[op.S] {
						w.want[id] = append(w.want[id], rp)
					}
				}
				if ret != nil {
					olds = append(olds, old{ret})
				}
				// What the caller does with its map afterwards is its own business.
				if kvs != nil {
					for k := range kvs {
						kvs[k] += "changed"
					}
					kvs["added"] = "later"
				}
			}
		}
	}
	// wait for the reports
	end := time.Now().Add(patience)
	for time.Now().Before(end) {
		synctest.Wait()
		n, m := len(w.tr.Reqs()), 0
		for _, l := range w.want {
			m += len(l)
		}
		if n >= m && w.tr.Pending() == 0 && w.tr.Open() == 0 {
			break
		}
		time.Sleep(time.Second)
	}
	// and for reports that should not be
	time.Sleep(2 * time.Minute)
	synctest.Wait()
	return w
}

func (w *world) stop() error {
	done := make(chan bool)
	go func() {
		for _, s := range w.sinks {
			s.ShutdownServer()
		}
		close(done)
	}()
	select {
	case <-done:
		return nil
	case <-time.After(5 * time.Minute):
		return errors.New("ShutdownServer has not returned after 5 minutes")
	}
}

type payload struct {
	APIKey   string
	Notifier map[string]string
	Events   []struct {
		PayloadVersion string
		Exceptions     []struct {
			ErrorClass string
			Message    string
			Stacktrace []struct {
				File       string
				LineNumber int
				Method     string
				InProject  bool
			}
		}
		Context  string
		App      map[string]string
		Device   map[string]string
		MetaData struct {
			Request map[string]string
			Kvs     map[string]string
		}
	}
}

// decoded sorts the requests by sink (told by the API key).
func (w *world) decoded(c Case, e *core.Errs) (per [][]payload, reqs [][]*httpx.Req) {
	per = make([][]payload, len(w.sinks))
	reqs = make([][]*httpx.Req, len(w.sinks))
	for i, r := range w.tr.Reqs() {
		var p payload
		if err := json.Unmarshal(r.Body, &p); err != nil {
			e.Addf("request %d is not valid JSON (%v): %.300q", i, err, r.Body)
			continue
		}
		found := false
		for id := range w.sinks {
			if p.APIKey == c.config(id).APIKey {
				per[id] = append(per[id], p)
				reqs[id] = append(reqs[id], r)
				found = true
			}
		}
		if !found {
			e.Addf("request %d has API key %q", i, p.APIKey)
		}
		if len(p.Events) != 1 || len(p.Events[0].Exceptions) != 1 {
			e.Addf("request %d reports %d events: %.300q", i, len(p.Events), r.Body)
		}
	}
	return
}

// counts checks that exactly the right errors were reported, in order.
func (w *world) counts(c Case, e *core.Errs) (per [][]payload, reqs [][]*httpx.Req) {
	per, reqs = w.decoded(c, e)
	if e.Err() != nil {
		return
	}
	for id := range w.sinks {
		for k := 0; k < len(per[id]) || k < len(w.want[id]); k++ {
			switch {
			case k >= len(per[id]):
				e.Addf("sink %d: %d reports instead of %d; the first one missing is %q %q", id, len(per[id]), len(w.want[id]), w.want[id][k].event, w.want[id][k].msg)
				return
			case k >= len(w.want[id]):
				x := per[id][k].Events[0]
				e.Addf("sink %d: %d reports instead of %d; the first one too many is %q %q", id, len(per[id]), len(w.want[id]), x.Exceptions[0].ErrorClass, x.Exceptions[0].Message)
				return
			}
			x, y := per[id][k].Events[0], w.want[id][k]
			if x.Context != y.job || x.Exceptions[0].ErrorClass != y.event || x.Exceptions[0].Message != y.msg {
				e.Addf("sink %d: report %d is job %q event %q error %.200q, want job %q event %q error %.200q", id, k, x.Context, x.Exceptions[0].ErrorClass, x.Exceptions[0].Message, y.job, y.event, y.msg)
				return
			}
		}
	}
	return
}

func split(fn string) (pkg, name string) {
	i := strings.LastIndex(fn, "/") + 1
	k := strings.Index(fn[i:], ".")
	if k < 0 {
		return fn[:i], fn[i:]
	}
	return fn[:i+k], fn[i+k+1:]
}

func orElse(a core.Str, b string) string {
	if a == "" {
		return b
	}
	return string(a)
}

func (w *world) faithful(c Case, e *core.Errs, per [][]payload, reqs [][]*httpx.Req) {
	host, _ := os.Hostname()
	for id := range w.sinks {
		for k := range per[id] {
			r, x, y := reqs[id][k], per[id][k].Events[0], w.want[id][k]
			if r.Method != "POST" || r.URL != orElse(c.Config.Endpoint, "https://notify.bugsnag.com/") {
				e.Addf("report %d: %s %s", k, r.Method, r.URL)
			}
			if n := per[id][k].Notifier; x.PayloadVersion != "2" || n["name"] == "" || n["version"] == "" || n["url"] == "" {
				e.Addf("report %d: Bugsnag requires the payload version and the notifier, which are %q and %q", k, x.PayloadVersion, n)
			}
			if ct := r.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
				e.Addf("report %d: content type %q", k, ct)
			}
			if x.App["releaseStage"] != orElse(c.Config.Stage, "production") {
				e.Addf("report %d: release stage %q", k, x.App["releaseStage"])
			}
			if x.App["version"] != string(c.Config.Version) {
				e.Addf("report %d: version %q", k, x.App["version"])
			}
			if x.Device["hostname"] != orElse(c.Config.Host, host) {
				e.Addf("report %d: host name %q", k, x.Device["hostname"])
			}
			if len(x.MetaData.Kvs) != len(y.kvs) {
				e.Addf("report %d (op %d): key/values %.300q, want %.300q", k, y.op, x.MetaData.Kvs, y.kvs)
			}
			for key, v := range y.kvs {
				if g, ok := x.MetaData.Kvs[key]; !ok || g != v {
					e.Addf("report %d (op %d): key %q is %.200q, want %.200q", k, y.op, key, g, v)
				}
			}
			if g := x.MetaData.Request["url"]; g != y.kvs["request"] {
				e.Addf("report %d: request URL %q, want %q", k, g, y.kvs["request"])
			}
			if g := x.MetaData.Request["parameters"]; g != y.kvs["formdata"] {
				e.Addf("report %d: request parameters %q, want %q", k, g, y.kvs["formdata"])
			}
			want := y.frames
			if len(want) > stack.MaxStackDepth {
				want = want[:stack.MaxStackDepth]
			}
			st := x.Exceptions[0].Stacktrace
			if len(st) != len(want) {
				e.Addf("report %d: %d stack frames, want %d", k, len(st), len(want))
				continue
			}
			for i, f := range want {
				pkg, name := split(f.fn)
				in := !strings.HasPrefix(f.file, runtime.GOROOT()+"/")
				g := st[i]
				if g.File != f.file || g.LineNumber != f.line || g.Method != pkg+":"+name || g.InProject != in {
					e.Addf("report %d: frame %d is %s:%d %s (in project: %v), want %s:%d %s:%s (%v)", k, i, g.File, g.LineNumber, g.Method, g.InProject, f.file, f.line, pkg, name, in)
					break
				}
			}
		}
	}
}

type genOpts struct {
	maxOps  int
	kvs     bool
	delays  bool
	faults  bool
	burst   int
	configs bool
}

func gen(g genOpts) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Shared: core.Chance(t, "shared", 1, 3)}
		c.Config.APIKey = core.Str(core.Pick(t, "key", "k", "c9d60ae4c7e70c4b6c4ebd3e8056d2b8", "%\"é"))
		if g.configs {
			c.Config.Endpoint = core.Str(core.Pick(t, "endpoint", "", "", "http://bugs.example.com:8080/notify?x=1", "https://b/"))
			if core.Chance(t, "stage", 1, 2) {
				c.Config.Stage = core.Str(core.Text(t, "stageText", false))
			}
			if core.Chance(t, "version", 1, 2) {
				c.Config.Version = core.Str(core.Text(t, "versionText", false))
			}
			if core.Chance(t, "host", 1, 2) {
				c.Config.Host = core.Str(core.Text(t, "hostText", false))
			}
		}
		for i := 0; i < 2; i++ {
			c.Jobs = append(c.Jobs, core.Str(core.Name(t, "job", core.NameOpts{Empty: true})))
		}
		n := core.Len(t, "n", 1, g.maxOps)
		for i := 0; i < n; i++ {
			op := Op{S: core.Uniform(t, "s", 3), J: core.Uniform(t, "j", 3), At: core.Pick(t, "at", 0, 1, 2, 3, 4, 5, 8, 9, 10, 6, 13, 6+7*core.Uniform(t, "symb", 10))}
			kinds := []string{"err", "err", "errKv", "errKv", "event", "timing", "gauge", "complete", "sleep"}
			if g.kvs {
				kinds = append(kinds, "kv", "skv", "kv", "errKv")
			}
			op.Op = kinds[core.Uniform(t, "op", len(kinds))]
			switch op.Op {
			case "sleep":
				op.Ns = core.Pick[int64](t, "sleep", 1, 1e6, 3e9, 40e9)
				if !g.delays && !g.faults {
					op.Ns = 1
				}
			case "kv", "skv":
				op.Kvs = core.GenKvs(t, "kvs", false)
			case "err", "errKv":
				op.Err = core.Pick(t, "err", "plain", "plain", "plain", "incomparable", "muted", "again", "mutedAgain", "handmade")
				op.Ev = core.Str(core.Name(t, "ev", core.NameOpts{Empty: true}))
				op.Msg = core.Str(core.Text(t, "msg", false))
				op.Ref = core.Uniform(t, "ref", 8)
				if g.burst > 0 && core.Chance(t, "burst", 1, 8) {
					op.Rep = 2 + core.Uniform(t, "rep", g.burst)
				}
				if op.Op == "errKv" {
					op.Kvs = core.GenKvs(t, "kvs", false)
				}
			default:
				op.Ev = core.Str(core.Name(t, "ev", core.NameOpts{}))
				op.Ns = core.Nanos(t, "ns", false)
			}
			c.Ops = append(c.Ops, op)
		}
		if g.faults || g.delays {
			m := 1 + core.Uniform(t, "answers", 6)
			for i := 0; i < m; i++ {
				c.Answers = append(c.Answers, httpx.GenAnswer(t, g.faults))
			}
		}
		return c
	}
}

func classify(c Case) (plain, again, muted int, l []string) {
	seen := map[string]bool{}
	for _, op := range c.Ops {
		k := op.Op
		if strings.HasPrefix(op.Op, "err") {
			k += ":" + op.Err
			switch op.Err {
			case "plain", "incomparable", "handmade":
				plain++
				if op.Rep > 25 {
					k += ">25"
				}
			case "again":
				again++
			default:
				muted++
			}
		}
		if !seen[k] {
			seen[k] = true
			l = append(l, k)
		}
	}
	return
}

func TestC18_once(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen:    gen(genOpts{maxOps: 40, burst: 60, delays: true}),
		Run: func(c Case) error {
			w := c.run(20 * time.Minute)
			var e core.Errs
			w.counts(c, &e)
			if err := w.stop(); err != nil && e.Err() == nil {
				return err
			}
			return e.Err()
		},
		Classify: func(c Case) (bool, []string) {
			p, a, m, l := classify(c)
			return p > 0 && a+m > 0, l
		},
	})
}

func TestC19_report(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen:    gen(genOpts{maxOps: 20, kvs: true, configs: true, delays: true}),
		Run: func(c Case) error {
			w := c.run(20 * time.Minute)
			var e core.Errs
			per, reqs := w.counts(c, &e)
			if e.Err() == nil {
				w.faithful(c, &e, per, reqs)
			}
			if err := w.stop(); err != nil && e.Err() == nil {
				return err
			}
			return e.Err()
		},
		Classify: func(c Case) (bool, []string) {
			p, _, _, l := classify(c)
			kv := false
			for _, op := range c.Ops {
				kv = kv || len(op.Kvs) > 0
			}
			return p > 0 && kv, l
		},
	})
}

func TestC31_bugsnag(t *testing.T) {
	core.Check(t, core.Sub[Case]{
		Bubble: true,
		Gen:    gen(genOpts{maxOps: 30, burst: 40, faults: true}),
		Run: func(c Case) error {
			w := c.run(3 * time.Hour)
			var e core.Errs
			w.counts(c, &e)
			reqs := w.tr.Reqs()
			for i, r := range reqs {
				if r.Done.IsZero() || r.Done.Sub(r.At) > time.Minute {
					e.Addf("request %d (answer: %+v) was not given up on within a minute", i, r.Answer)
					break
				}
			}
			if n := w.tr.Open(); n > 0 {
				e.Addf("%d response bodies were never closed", n)
			}
			if err := w.stop(); err != nil && e.Err() == nil {
				return err
			}
			return e.Err()
		},
		Classify: func(c Case) (bool, []string) {
			p, _, _, _ := classify(c)
			var l []string
			bad := false
			for _, a := range c.Answers {
				bad = bad || !a.OK()
				l = append(l, a.Kind)
			}
			return p > 1 && bad, l
		},
	})
}

// Direct is a call of Notify.
type Direct struct {
	Job    core.Str     `json:"job"`
	Event  core.Str     `json:"event"`
	Msg    core.Str     `json:"msg"`
	Kvs    core.Kvs     `json:"kvs"`
	Trace  bool         `json:"trace"`
	Answer httpx.Answer `json:"answer"`
}

func TestC31_notify(t *testing.T) {
	core.Check(t, core.Sub[Direct]{
		Bubble: true,
		Gen: func(t *rapid.T) Direct {
			return Direct{Job: core.Str(core.Text(t, "job", true)), Event: core.Str(core.Text(t, "event", true)), Msg: core.Str(core.Text(t, "msg", true)), Trace: core.Chance(t, "trace", 1, 2), Answer: httpx.GenAnswer(t, true)}
		},
		Run: func(c Direct) error {
			tr := &httpx.Transport{Answer: func(int, *httpx.Req) httpx.Answer { return c.Answer }}
			defer tr.Install()()
			var trace *stack.Trace
			if c.Trace {
				trace = stack.NewTrace(0)
			}
			at := time.Now()
			err := bugsnag.Notify(&bugsnag.Config{APIKey: "key", Endpoint: "http://bugsnag.test/"}, string(c.Job), string(c.Event), errors.New(string(c.Msg)), trace, nil)
			if d := time.Since(at); d > time.Minute {
				return fmt.Errorf("Notify took %v", d)
			}
			if n := len(tr.Reqs()); n != 1 {
				return fmt.Errorf("%d requests", n)
			}
			if n := tr.Open(); n > 0 {
				return fmt.Errorf("the response body was never closed")
			}
			switch a := c.Answer; {
			case a.OK() && err != nil:
				return fmt.Errorf("the report was accepted, but Notify has returned %v", err)
			case (a.Kind == "refused" || a.Kind == "reset" || a.Kind == "cutBody" || a.Kind == "hugeBody" || a.Blocks() || a.Kind == "status" && a.Status >= 400 && a.Body != "OK") && err == nil:
				return fmt.Errorf("the report was not accepted (%+v), but Notify has returned no error", a)
			}
			return nil
		},
		Classify: func(c Direct) (bool, []string) { return !c.Answer.OK(), []string{c.Answer.Kind} },
	})
}
