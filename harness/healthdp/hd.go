// Package healthdp checks healthd: it runs the real daemon in virtual time against modelled hosts (or real polling
// sinks) behind a recording, fault-injecting transport, and compares its API with a model fed with what was answered.
package healthdp

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/braintree/manners"
	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"

	"verif/harness/aggm"
	"verif/harness/core"
	"verif/harness/httpx"
	"verif/harness/rec"
)

// Behave is how a host answers from now on.
type Behave struct {
	// ok (its data), status (its data with another status), body (Body with Status), mangle (its data, damaged),
	// mismatch (its data, with another interval length), refused, reset, hang, hangBody, cutBody, hugeBody.
	Kind   string   `json:"kind"`
	Status int      `json:"status,omitempty"`
	Body   core.Str `json:"body,omitempty"`
	How    string   `json:"how,omitempty"` // mangle: cut, del, or the JSON to put in
	Pos    int      `json:"pos,omitempty"` // mangle: where, in permille
	Delay  int64    `json:"delay,omitempty"`
	Gap    int64    `json:"gap,omitempty"`
	Pad    int      `json:"pad,omitempty"` // ok: so much white space comes before the data, in the first two answers
}

// Op is a step of a history.
type Op struct {
	Op   string    `json:"op"` // emit, sleep, set, restart, query, soak (N times: emit E, sleep an interval)
	Host int       `json:"h,omitempty"`
	E    aggm.Emit `json:"e,omitempty"`
	Ns   int64     `json:"ns,omitempty"`
	N    int       `json:"n,omitempty"`
	B    *Behave   `json:"b,omitempty"`
	Sort string    `json:"sort,omitempty"`
	Lim  string    `json:"lim,omitempty"`
	Path string    `json:"path,omitempty"`
}

// Host is a monitored host.
type Host struct {
	Name   string `json:"name"`
	Zone   int    `json:"zone,omitempty"` // minutes east of UTC
	Retain int    `json:"retain"`         // intervals
	Bad    bool   `json:"bad,omitempty"`  // its data is not compared: all its names start with bad
	B      Behave `json:"b"`
}

// Case is a history of a healthd and its hosts.
type Case struct {
	D      int64  `json:"d"` // interval length
	Offset int64  `json:"offset"`
	Real   bool   `json:"real,omitempty"` // the hosts are real polling sinks
	Hosts  []Host `json:"hosts"`
	Dup    bool   `json:"dup,omitempty"`  // the first host is listed twice
	Same   bool   `json:"same,omitempty"` // hosts' instances have the same names as others'
	Ops    []Op   `json:"ops"`
}

// host is the state of a host.
type host struct {
	Host
	id    int
	same  bool
	inst  int
	ivs   []*aggm.Interval // of this instance, ascending
	since time.Time
	sink  *health.JsonPollingSink
	pads  int
}

// poll is what one request to a host got.
type poll struct {
	r      *httpx.Req
	h      *host
	inst   string
	b      Behave
	data   []*aggm.Interval // deep copies
	valid  bool             // the data counts
	status int
	errd   int    // an error must be reported: 1 yes, 0 no, -1 either
	cause  string // is part of that error
}

func (p *poll) code() int { return p.status }

// finish is when healthd has the result; zero if not yet.
func (p *poll) finish() time.Time {
	if p.valid || p.b.Kind == "status" || p.b.Kind == "body" || p.b.Kind == "mangle" || p.b.Kind == "mismatch" {
		return p.r.At.Add(time.Duration(p.b.Delay + p.b.Gap))
	}
	if !p.r.Closed.IsZero() {
		return p.r.Closed
	}
	if p.r.Failed {
		return p.r.Done
	}
	return time.Time{}
}

type world struct {
	c     Case
	d     time.Duration
	mu    sync.Mutex
	hosts []*host
	byURL map[string]*host
	polls []*poll
	tr    *httpx.Transport
	sink  *rec.Sink
	hd    *healthd.HealthD
	addr  string
	t0    time.Time
	reqs  []apiReq
	errs  core.Errs
}

var addrs int64

const bad = "bad"

func (w *world) slide(h *host) {
	now := time.Now()
	cur := now.Truncate(w.d)
	first := cur.Add(-time.Duration(h.Retain-1) * w.d)
	if s := h.since.Truncate(w.d); s.After(first) {
		first = s
	}
	var ivs []*aggm.Interval
	for s := first; !s.After(cur); s = s.Add(w.d) {
		var have *aggm.Interval
		for _, iv := range h.ivs {
			if iv.Start.Equal(s) {
				have = iv
			}
		}
		if have == nil {
			have = aggm.New(s)
		}
		ivs = append(ivs, have)
	}
	h.ivs = ivs
}

func (w *world) emit(h *host, e aggm.Emit) {
	if h.Bad {
		e.Job, e.Event = bad+e.Job, bad+e.Event
	}
	if h.sink != nil {
		e.To(h.sink, nil)
		synctest.Wait()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.slide(h)
	iv := h.ivs[len(h.ivs)-1]
	iv.Add(e)
	iv.Serial += int64(e.Times())
}

func (h *host) instance() string {
	id := h.id
	if h.same {
		id = 0
	}
	return fmt.Sprintf("%s.%d.%d<&\"é", "i", id, h.inst)
}

func (w *world) start(h *host) {
	if w.c.Real {
		if h.sink != nil {
			h.sink.ShutdownServer()
		}
		h.sink = health.NewJsonPollingSink(w.d, time.Duration(h.Retain)*w.d)
	}
	w.mu.Lock()
	h.inst++
	h.ivs = nil
	h.since = time.Now()
	w.mu.Unlock()
}

// body is what a working host answers, and the data it stands for.
func (w *world) body(h *host, d time.Duration) (string, []*aggm.Interval) {
	w.slide(h)
	var data []*aggm.Interval
	resp := aggm.HealthResponse{InstanceID: h.instance(), IntervalDuration: int64(d)}
	zone := time.FixedZone("", h.Zone*60)
	for _, iv := range h.ivs {
		data = append(data, iv.Clone())
		c := iv.Clone()
		c.Start = c.Start.In(zone)
		resp.Aggregations = append(resp.Aggregations, c)
	}
	if h.sink != nil {
		rw := httptest.NewRecorder()
		h.sink.ServeHTTP(rw, httptest.NewRequest("GET", "/health", nil))
		var m map[string]interface{}
		dec := json.NewDecoder(rw.Body)
		dec.UseNumber()
		if err := dec.Decode(&m); err == nil {
			m["instance_id"] = h.instance()
			b, _ := json.Marshal(m)
			return string(b), data
		}
	}
	b, err := json.Marshal(resp)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b), data
}

// mangle damages a JSON document at a position.
func mangle(body, how string, pos int) string {
	if how == "cut" {
		return body[:(len(body)-1)*pos/1000]
	}
	var v interface{}
	dec := json.NewDecoder(strings.NewReader(body))
	dec.UseNumber()
	if dec.Decode(&v) != nil {
		return ""
	}
	count := 0
	var size func(v interface{})
	size = func(v interface{}) {
		count++
		switch x := v.(type) {
		case map[string]interface{}:
			for _, y := range x {
				size(y)
			}
		case []interface{}:
			for _, y := range x {
				size(y)
			}
		}
	}
	size(v)
	at := (count - 1) * pos / 1000
	i := -1
	var put func(v interface{}) interface{}
	put = func(v interface{}) interface{} {
		i++
		if i == at {
			if how == "del" {
				return nil
			}
			return json.RawMessage(how)
		}
		switch x := v.(type) {
		case map[string]interface{}:
			ks := make([]string, 0, len(x))
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				was := i < at
				x[k] = put(x[k])
				if how == "del" && was && i >= at && x[k] == nil {
					delete(x, k)
				}
			}
		case []interface{}:
			for k := range x {
				x[k] = put(x[k])
			}
		}
		return v
	}
	b, err := json.Marshal(put(v))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

func (w *world) answer(i int, r *httpx.Req) httpx.Answer {
	u, _ := url.Parse(r.URL)
	w.mu.Lock()
	defer w.mu.Unlock()
	h := w.byURL[u.Host]
	if h == nil || u.Path != "/health" || u.Scheme != "http" || r.Method != "GET" {
		w.errs.Addf("unexpected request %s %s", r.Method, r.URL)
		return httpx.Answer{Kind: "refused"}
	}
	b := h.B
	if b.Kind == "mismatch" && !w.goodBy(time.Now()) {
		b.Kind = "refused"
	}
	p := &poll{r: r, h: h, inst: h.instance(), b: b, status: 200}
	w.polls = append(w.polls, p)
	a := httpx.Answer{Delay: b.Delay, Gap: b.Gap}
	send := func(s string) {
		a.Kind, a.Status, a.Body = "status", p.status, core.Str(s)
		if b.Gap > 0 {
			a.Kind = "slowBody"
		}
	}
	switch b.Kind {
	case "ok":
		s, data := w.body(h, w.d)
		p.data, p.valid = data, true
		if b.Pad > 0 && h.pads < 2 {
			h.pads++
			s = strings.Repeat("\n", b.Pad) + s
		}
		send(s)
	case "status":
		s, _ := w.body(h, w.d)
		p.status = b.Status
		send(s)
		if p.errd = -1; b.Status == 200 {
			p.errd = 0
		}
	case "body":
		p.status, p.errd = b.Status, 1
		inst, _ := json.Marshal(h.instance())
		send(strings.NewReplacer("INSTANCE", string(inst), "INTERVAL", fmt.Sprint(int64(w.d))).Replace(string(b.Body)))
		if b.Status != 200 && json.Valid([]byte(a.Body)) {
			p.errd = -1
		}
	case "mangle":
		s, _ := w.body(h, w.d)
		p.errd = -1
		if b.How == "cut" {
			p.errd = 1
		}
		s = mangle(s, b.How, b.Pos)
		var m struct {
			D int64 `json:"interval_duration"`
		}
		if json.Unmarshal([]byte(s), &m); m.D > 0 && m.D != int64(w.d) && !w.goodBy(time.Now()) {
			s = "" // (the first valid response tells how long intervals are)
			p.errd = 1
		}
		send(s)
	case "mismatch":
		s, _ := w.body(h, w.d+time.Second)
		p.errd = -1
		send(s)
	default:
		a.Kind = b.Kind
		a.Gap = 0
		p.b.Gap = 0
		p.errd, p.status = 1, 0
		switch b.Kind {
		case "hangBody", "cutBody":
			p.status = 200
			if b.Status != 0 {
				p.status, a.Status = b.Status, b.Status
			}
			if b.How == "data" { // some or all of the data comes
				s, _ := w.body(h, w.d)
				a.Body = core.Str(s[:len(s)*b.Pos/1000])
			}
		case "hugeBody":
			p.status = 200
		case "refused", "reset":
			p.cause = fmt.Sprintf(" (on attempt%s no. %d)", strings.Repeat(" to find someone who listens", len(w.polls)%7), len(w.polls))
			a.Cause = p.cause
		}
	}
	return a
}

// goodBy tells whether a good response was delivered before t.
func (w *world) goodBy(t time.Time) bool {
	for _, p := range w.polls {
		if p.valid && !p.h.Bad && p.finish().Before(t) {
			return true
		}
	}
	return false
}

func (w *world) begin() {
	w.sink = &rec.Sink{}
	stream := health.NewStream()
	stream.AddSink(w.sink)
	w.addr = fmt.Sprintf("healthd-%d:5031", atomic.AddInt64(&addrs, 1))
	var names []string
	for i := range w.c.Hosts {
		h := &host{Host: w.c.Hosts[i], id: i, same: w.c.Same}
		w.hosts = append(w.hosts, h)
		w.byURL[h.Name] = h
		names = append(names, h.Name)
		w.start(h)
	}
	if w.c.Dup {
		names = append(names, names[0])
	}
	w.t0 = time.Now()
	w.hd = healthd.StartNewHealthD(names, w.addr, stream)
	synctest.Wait()
}

// end stops everything.
func (w *world) end() error {
	done := make(chan bool)
	go func() { w.hd.Stop(); close(done) }()
	for _, h := range w.hosts {
		if h.sink != nil {
			h.sink.ShutdownServer()
		}
	}
	select {
	case <-done:
	case <-time.After(time.Minute):
		return fmt.Errorf("Stop did not return within a minute")
	}
	time.Sleep(30 * time.Second) // pending requests time out
	manners.Forget(w.addr)
	return nil
}

// get makes an API request.
func (w *world) get(path string) (*httptest.ResponseRecorder, error) {
	h, _ := manners.Handler(w.addr)
	if h == nil {
		return nil, fmt.Errorf("the API is not served")
	}
	w.reqs = append(w.reqs, apiReq{path: path, at: time.Now()})
	rw := httptest.NewRecorder()
	done := make(chan bool)
	go func() {
		h.ServeHTTP(rw, httptest.NewRequest("GET", path, nil))
		close(done)
	}()
	select {
	case <-done:
		return rw, nil
	case <-time.After(20 * time.Second):
		return nil, fmt.Errorf("GET %s was not answered within 20 s", path)
	}
}

func (w *world) getJSON(path string, v interface{}) error {
	rw, err := w.get(path)
	if err != nil {
		return err
	}
	if rw.Code != 200 {
		return fmt.Errorf("GET %s: status %d: %.200s", path, rw.Code, rw.Body.String())
	}
	if ct := rw.Header().Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		return fmt.Errorf("GET %s: content type %q", path, ct)
	}
	if err := aggm.Decode(rw.Body.Bytes(), v); err != nil {
		return fmt.Errorf("GET %s: %v", path, err)
	}
	return nil
}

type common struct {
	InstanceID       string `json:"instance_id"`
	IntervalDuration int64  `json:"interval_duration"`
}

func (w *world) common(path string, c common, settled bool) {
	if c.InstanceID != health.Identifier {
		w.errs.Addf("GET %s: instance %q, want %q", path, c.InstanceID, health.Identifier)
	}
	if settled && c.IntervalDuration != int64(w.d) || c.IntervalDuration != 0 && c.IntervalDuration != int64(w.d) {
		w.errs.Addf("GET %s: interval length %d, want %d", path, c.IntervalDuration, int64(w.d))
	}
}

// state is the expected data after some polls.
type state struct {
	starts []time.Time
	ivs    map[int64]*aggm.Interval
	gauges map[string][]float64
	free   map[int64]bool // what is in these intervals is not specified
}

type hostKey struct {
	h    int
	inst string
}

func gaugeKey(start time.Time, job string, isJob bool, k string) string {
	return fmt.Sprint(start.UnixNano(), "/", isJob, "/", strconv.Quote(job), strconv.Quote(k))
}

func (w *world) max() int {
	n := int(2 * time.Hour / w.d)
	if n < 1 {
		n = 1
	}
	return n
}

func (w *world) expect(polls []*poll) *state {
	latest := map[int64]map[hostKey]*aggm.Interval{}
	last := map[int64]time.Time{}
	free := map[int64]bool{}
	for _, p := range polls {
		if !p.valid {
			continue
		}
		for _, iv := range p.data {
			// When nobody reported an old interval for a while, healthd may have given up what it consists of.
			k, t := iv.Start.UnixNano(), p.finish()
			if l, ok := last[k]; ok && t.Sub(l) > 40*time.Second && t.Sub(iv.Start) > 5*w.d {
				free[k] = true
			}
			last[k] = t
		}
		for _, iv := range p.data {
			k := iv.Start.UnixNano()
			if latest[k] == nil {
				latest[k] = map[hostKey]*aggm.Interval{}
			}
			latest[k][hostKey{p.h.id, p.inst}] = iv
		}
	}
	st := &state{ivs: map[int64]*aggm.Interval{}, gauges: map[string][]float64{}, free: free}
	for k, m := range latest {
		iv := aggm.New(time.Unix(0, k))
		for _, o := range m {
			iv.Merge(o)
			for g, v := range o.Gauges {
				gk := gaugeKey(iv.Start, "", false, g)
				st.gauges[gk] = append(st.gauges[gk], v)
			}
			for jn, j := range o.Jobs {
				for g, v := range j.Gauges {
					gk := gaugeKey(iv.Start, jn, true, g)
					st.gauges[gk] = append(st.gauges[gk], v)
				}
			}
		}
		st.ivs[k] = iv
		st.starts = append(st.starts, iv.Start)
	}
	sort.Slice(st.starts, func(i, j int) bool { return st.starts[i].Before(st.starts[j]) })
	if n := len(st.starts) - w.max(); n > 0 {
		for _, s := range st.starts[:n] {
			delete(st.ivs, s.UnixNano())
		}
		st.starts = st.starts[n:]
	}
	return st
}

func strip[V any](m map[string]V) {
	for k := range m {
		if strings.HasPrefix(k, bad) {
			delete(m, k)
		}
	}
}

func stripMaps(m *aggm.Maps) { strip(m.Timers); strip(m.Gauges); strip(m.Events); strip(m.Errs) }

func stripped(iv *aggm.Interval) *aggm.Interval {
	c := iv.Clone()
	stripMaps(&c.Maps)
	strip(c.Jobs)
	for _, j := range c.Jobs {
		stripMaps(&j.Maps)
	}
	return c
}

func empty(iv *aggm.Interval) bool {
	return len(iv.Timers)+len(iv.Gauges)+len(iv.Events)+len(iv.Errs)+len(iv.Jobs) == 0
}

// compare lists the differences between the reported intervals and an expected state.
func (w *world) compare(got []*aggm.Interval, st *state) error {
	var e core.Errs
	loose := w.c.Real // (real sinks may leave out intervals in which nothing happened)
	var oldest time.Time
	w.mu.Lock()
	vague := map[*host]bool{} // hosts that sent what healthd may or may not take for data
	for _, p := range w.polls {
		switch p.b.Kind {
		case "ok", "status", "body", "mangle":
			vague[p.h] = true
		}
	}
	w.mu.Unlock()
	for _, h := range w.hosts {
		if h.Bad && vague[h] {
			loose = true
			// Whatever bad hosts report for the current interval may push out what is too old now.
			oldest = time.Now().Truncate(w.d).Add(-time.Duration(w.max()-1) * w.d)
		}
	}
	seen := map[int64]bool{}
	for _, g := range got {
		k := g.Start.UnixNano()
		want := st.ivs[k]
		if loose {
			g = stripped(g)
			if want == nil && empty(g) {
				continue
			}
			if want != nil {
				want = stripped(want)
			}
		}
		if want == nil {
			e.Addf("interval %v is reported, but no host reported it (or it is too old)", g.Start.UTC())
			continue
		}
		seen[k] = true
		if st.free[k] {
			continue
		}
		aggm.DiffG(&e, "interval "+g.Start.UTC().Format(time.RFC3339Nano), g, want, func(job string, isJob bool, key string) []float64 {
			return st.gauges[gaugeKey(want.Start, job, isJob, key)]
		})
	}
	for _, s := range st.starts {
		if !seen[s.UnixNano()] && !s.Before(oldest) && !(loose && empty(stripped(st.ivs[s.UnixNano()]))) {
			e.Addf("interval %v is missing", s.UTC())
		}
	}
	return e.Err()
}

// done are the polls that healthd has the result of, in order, how many of them are from at least three seconds ago,
// and whether several of the others came at the same time.
func (w *world) done() (ps []*poll, settled int, ties bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	now := time.Now()
	for _, p := range w.polls {
		if f := p.finish(); !f.IsZero() && !f.After(now) {
			ps = append(ps, p)
		}
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].finish().Before(ps[j].finish()) })
	for i, p := range ps {
		if now.Sub(p.finish()) >= 3*time.Second {
			settled = i + 1
		} else if i > settled && p.finish().Equal(ps[i-1].finish()) {
			ties = true
		}
	}
	return
}

func (w *world) aggregations() ([]*aggm.Interval, error) {
	var resp struct {
		common
		Aggregations []*aggm.Interval `json:"aggregations"`
	}
	if err := w.getJSON("/healthd/aggregations", &resp); err != nil {
		return nil, err
	}
	ps, settled, _ := w.done()
	ok := false
	for _, p := range ps[:settled] {
		ok = ok || p.valid
	}
	w.common("/healthd/aggregations", resp.common, ok)
	for i, iv := range resp.Aggregations {
		if iv == nil {
			return nil, fmt.Errorf("null interval in /healthd/aggregations")
		}
		if i > 0 && !resp.Aggregations[i-1].Start.Before(iv.Start) {
			return nil, fmt.Errorf("/healthd/aggregations is not in ascending order: %v, then %v", resp.Aggregations[i-1].Start, iv.Start)
		}
	}
	if n := len(resp.Aggregations); n > w.max() {
		return nil, fmt.Errorf("/healthd/aggregations has %d intervals of %v, more than fit in two hours", n, w.d)
	}
	return resp.Aggregations, nil
}

// checkData compares /healthd/aggregations with the model.
func (w *world) checkData() ([]*aggm.Interval, error) {
	got, err := w.aggregations()
	if err != nil {
		return nil, err
	}
	ps, settled, ties := w.done()
	full := w.compare(got, w.expect(ps))
	if full == nil {
		return got, nil
	}
	if settled == len(ps) {
		return got, full
	}
	if ties {
		return got, nil
	}
	for k := len(ps) - 1; k >= settled; k-- {
		if w.compare(got, w.expect(ps[:k])) == nil {
			return got, nil
		}
	}
	return got, fmt.Errorf("the data is not that of any moment in the last three seconds; compared to all responses:\n%v", full)
}

// checkHosts compares /healthd/hosts with the polls.
func (w *world) checkHosts(strictBad bool) error {
	var resp struct {
		common
		Hosts []*struct {
			HostPort string    `json:"host_port"`
			Check    time.Time `json:"last_check_time"`
			Inst     string    `json:"last_instance_id"`
			D        int64     `json:"last_interval_duration"`
			Err      string    `json:"last_err"`
			Nanos    int64     `json:"last_nanos"`
			Code     int       `json:"last_code"`
			First    time.Time `json:"first_successful_response"`
			Last     time.Time `json:"last_successful_response"`
		} `json:"hosts"`
	}
	if err := w.getJSON("/healthd/hosts", &resp); err != nil {
		return err
	}
	w.common("/healthd/hosts", resp.common, false)
	var e core.Errs
	ps, _, _ := w.done()
	var names []string
	for _, h := range w.hosts {
		names = append(names, h.Name)
	}
	sort.Strings(names)
	if len(resp.Hosts) != len(names) {
		return fmt.Errorf("/healthd/hosts lists %d hosts, want %d", len(resp.Hosts), len(names))
	}
	for i, g := range resp.Hosts {
		if g == nil || g.HostPort != names[i] {
			return fmt.Errorf("/healthd/hosts: host %d is %+v, want %q", i, g, names[i])
		}
		h := w.byURL[g.HostPort]
		var last *poll
		var first, latest time.Time
		unsure := false
		for _, p := range ps {
			if p.h != h {
				continue
			}
			last = p
			ok := p.valid || p.b.Kind == "status" && p.status == 200
			if ok {
				if first.IsZero() {
					first = p.finish()
				}
				latest = p.finish()
			}
			unsure = unsure || p.b.Kind == "mangle" && p.b.How != "cut" || p.b.Kind == "mismatch"
		}
		if h.Bad && !strictBad {
			continue
		}
		where := fmt.Sprintf("host %s", g.HostPort)
		if !unsure && (!g.First.Equal(first) || !g.Last.Equal(latest)) {
			e.Addf("%s: first and last successful response at %v and %v, want %v and %v", where, g.First.UTC(), g.Last.UTC(), first.UTC(), latest.UTC())
		}
		if last == nil {
			if !g.Check.IsZero() || g.Inst != "" || g.Err != "" || g.Code != 0 || g.Nanos != 0 {
				e.Addf("%s: not polled yet, but reported as %+v", where, *g)
			}
			continue
		}
		if !g.Check.Equal(last.r.At) {
			e.Addf("%s: checked at %v, want %v", where, g.Check.UTC(), last.r.At.UTC())
		}
		if g.Code != last.status {
			e.Addf("%s: status code %d, want %d", where, g.Code, last.status)
		}
		if last.errd == 1 && g.Err == "" || last.errd == 0 && g.Err != "" {
			e.Addf("%s: error %q after a poll of kind %s", where, g.Err, last.b.Kind)
		}
		if last.cause != "" && last.r.Done.Sub(last.r.At) == time.Duration(last.b.Delay) && !strings.Contains(g.Err, last.cause) {
			e.Addf("%s: error %q after a request that failed with %q", where, g.Err, last.cause)
		}
		for _, p := range ps {
			if p.cause != "" && p != last && strings.Contains(g.Err, p.cause) {
				e.Addf("%s: error %q, but that was an earlier poll: the last one was of kind %s", where, g.Err, last.b.Kind)
			}
		}
		if last.valid && (g.Inst != last.inst || g.D != int64(w.d)) {
			e.Addf("%s: instance %q with intervals of %d, want %q with %d", where, g.Inst, g.D, last.inst, int64(w.d))
		}
		if want := last.finish().Sub(last.r.At).Nanoseconds(); (last.valid || last.errd < 1) && g.Nanos != want {
			e.Addf("%s: response time %d, want %d", where, g.Nanos, want)
		}
	}
	return e.Err()
}

// Job is an entry of /healthd/jobs.
type job struct {
	Name string `json:"name"`
	aggm.Timer
	Success    int64   `json:"count_success"`
	Validation int64   `json:"count_validation_error"`
	Panic      int64   `json:"count_panic"`
	Error      int64   `json:"count_error"`
	Junk       int64   `json:"count_junk"`
	Avg        float64 `json:"nanos_avg"`
	StdDev     float64 `json:"nanos_std_dev"`
}

var sorts = map[string]func(j *job) float64{
	"count":                  func(j *job) float64 { return float64(j.Count) },
	"count_success":          func(j *job) float64 { return float64(j.Success) },
	"count_validation_error": func(j *job) float64 { return float64(j.Validation) },
	"count_panic":            func(j *job) float64 { return float64(j.Panic) },
	"count_error":            func(j *job) float64 { return float64(j.Error) },
	"count_junk":             func(j *job) float64 { return float64(j.Junk) },
	"total_time":             func(j *job) float64 { return float64(j.Sum) },
	"avg":                    func(j *job) float64 { return j.Avg },
	"min":                    func(j *job) float64 { return float64(j.Min) },
	"max":                    func(j *job) float64 { return float64(j.Max) },
	"stddev":                 func(j *job) float64 { return j.StdDev },
}

// checkViews compares the overall and job views with the intervals.
func (w *world) checkViews(op Op) error {
	ivs, err := w.aggregations()
	if err != nil {
		return err
	}
	var o struct {
		common
		Overall *aggm.Interval `json:"overall"`
	}
	if err := w.getJSON("/healthd/aggregations/overall", &o); err != nil {
		return err
	}
	w.common("/healthd/aggregations/overall", o.common, false)
	var e core.Errs
	all := aggm.New(time.Time{})
	for _, iv := range ivs {
		all.Merge(iv)
	}
	bads := false
	for _, h := range w.hosts {
		bads = bads || h.Bad
	}
	if o.Overall == nil {
		if len(ivs) > 0 {
			return fmt.Errorf("no overall aggregation, although there are %d intervals", len(ivs))
		}
	} else {
		if bads {
			aggm.Diff(&e, "overall", stripped(o.Overall), stripped(all))
		} else {
			aggm.Diff(&e, "overall", o.Overall, all)
		}
		if len(ivs) > 0 && !o.Overall.Start.Equal(ivs[0].Start) {
			e.Addf("overall starts at %v, want %v", o.Overall.Start, ivs[0].Start)
		}
	}
	q := url.Values{}
	if op.Sort != "" {
		q.Set("sort", op.Sort)
	}
	if op.Lim != "" {
		q.Set("limit", op.Lim)
	}
	path := "/healthd/jobs"
	if len(q) > 0 {
		path += "?" + q.Encode()
	}
	var js struct {
		common
		Jobs []*job `json:"jobs"`
	}
	if err := w.getJSON(path, &js); err != nil {
		return err
	}
	w.common(path, js.common, false)
	want := len(all.Jobs)
	limited := false
	if n, err := strconv.Atoi(op.Lim); err == nil && n > 0 && n < want {
		want, limited = n, true
	}
	if len(js.Jobs) != want {
		e.Addf("%s has %d jobs, want %d of %d", path, len(js.Jobs), want, len(all.Jobs))
	}
	seen := map[string]bool{}
	for _, j := range js.Jobs {
		if j == nil {
			return fmt.Errorf("%s has a null job", path)
		}
		a := all.Jobs[j.Name]
		if a == nil || seen[j.Name] {
			e.Addf("%s: job %q is listed twice or does not exist", path, j.Name)
			continue
		}
		seen[j.Name] = true
		if strings.HasPrefix(j.Name, bad) {
			continue
		}
		wh := fmt.Sprintf("%s: job %q", path, j.Name)
		if j.Count != a.Count || j.Sum != a.Sum || j.Min != a.Min || j.Max != a.Max || !near(j.Sq, a.Sq, 1e-9) {
			e.Addf("%s: %+v, want %+v", wh, j.Timer, a.Timer)
		}
		if j.Success != a.Success || j.Validation != a.Validation || j.Panic != a.Panic || j.Error != a.Error || j.Junk != a.Junk {
			e.Addf("%s: statuses %d %d %d %d %d, want %d %d %d %d %d", wh, j.Success, j.Validation, j.Panic, j.Error, j.Junk, a.Success, a.Validation, a.Panic, a.Error, a.Junk)
		}
		if avg, _ := ratio(j.Sum, j.Count); !near(j.Avg, avg, 1e-12) {
			e.Addf("%s: average %v, want %v", wh, j.Avg, avg)
		}
		if bad := stddev(j); bad != "" {
			e.Addf("%s: standard deviation %v, %s", wh, j.StdDev, bad)
		}
	}
	if op.Sort == "name" {
		var names []string
		for k := range all.Jobs {
			names = append(names, k)
		}
		sort.Strings(names)
		for i, j := range js.Jobs {
			if i < len(names) && j.Name != names[i] {
				e.Addf("%s: job %d is %q, want %q", path, i, j.Name, names[i])
				break
			}
		}
	} else if key := sorts[op.Sort]; key != nil {
		for i := 1; i < len(js.Jobs); i++ {
			if key(js.Jobs[i-1]) < key(js.Jobs[i]) {
				e.Addf("%s: job %q (%v) comes before %q (%v)", path, js.Jobs[i-1].Name, key(js.Jobs[i-1]), js.Jobs[i].Name, key(js.Jobs[i]))
				break
			}
		}
		if limited {
			// the full list tells what the first ones are
			var full struct {
				Jobs []*job `json:"jobs"`
			}
			if err := w.getJSON("/healthd/jobs", &full); err != nil {
				return err
			}
			sort.SliceStable(full.Jobs, func(i, j int) bool { return key(full.Jobs[i]) > key(full.Jobs[j]) })
			for i, j := range js.Jobs {
				if i < len(full.Jobs) && key(j) != key(full.Jobs[i]) {
					e.Addf("%s: job %d is %q (%v), but %q (%v) is not among the first", path, i, j.Name, key(j), full.Jobs[i].Name, key(full.Jobs[i]))
					break
				}
			}
		}
	}
	return e.Err()
}

func near(a, b, eps float64) bool {
	return a == b || math.Abs(a-b) <= eps*math.Max(math.Abs(a), math.Abs(b))
}

func ratio(a, b int64) (float64, bool) {
	if b == 0 {
		return 0, false
	}
	f, _ := new(big.Rat).SetFrac64(a, b).Float64()
	return f, true
}

// stddev checks the sample standard deviation of a job against its other values, with a tolerance for the
// cancellation of n*sq and sum*sum.
func stddev(j *job) string {
	if math.IsNaN(j.StdDev) || math.IsInf(j.StdDev, 0) || j.StdDev < 0 {
		return "not a finite non-negative number"
	}
	if j.Count < 2 {
		if j.StdDev != 0 {
			return "want 0"
		}
		return ""
	}
	n, sum := new(big.Float).SetPrec(400).SetInt64(j.Count), new(big.Float).SetPrec(400).SetInt64(j.Sum)
	nsq := new(big.Float).SetPrec(400).Mul(n, new(big.Float).SetFloat64(j.Sq))
	div := new(big.Float).SetPrec(400).SetInt64(j.Count)
	div.Mul(div, new(big.Float).SetInt64(j.Count-1))
	num := new(big.Float).SetPrec(400).Sub(nsq, new(big.Float).SetPrec(400).Mul(sum, sum))
	v, _ := new(big.Float).Quo(num, div).Float64()
	tol, _ := new(big.Float).Quo(nsq, div).Float64()
	tol = tol*1e-13 + math.Abs(v)*1e-12
	if v < 0 {
		v = 0
	}
	if g := j.StdDev * j.StdDev; math.Abs(g-v) > tol {
		return fmt.Sprintf("want about %v", math.Sqrt(v))
	}
	return ""
}

func (w *world) check404(path string) error {
	rw, err := w.get(path)
	if err != nil {
		return err
	}
	if rw.Code != http.StatusNotFound || !json.Valid(rw.Body.Bytes()) {
		return fmt.Errorf("GET %s: status %d and body %.100q, want 404 with JSON", path, rw.Code, rw.Body.String())
	}
	return nil
}

// checkPolls: every host was polled once at the start and once every ten seconds, and no poll lasts until the next one.
func (w *world) checkPolls() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	now := time.Now()
	var e core.Errs
	byHost := map[*host][]time.Time{}
	for _, p := range w.polls {
		byHost[p.h] = append(byHost[p.h], p.r.At)
		if over := p.r.EOF || !p.r.Closed.IsZero() || p.r.Failed && !p.r.Done.IsZero(); !over && now.Sub(p.r.At) >= 10*time.Second {
			e.Addf("host %s was polled at %v and the poll is still going on at %v", p.h.Name, p.r.At.Sub(w.t0), now.Sub(w.t0))
			return e.Err()
		}
	}
	want := int(now.Sub(w.t0)/(10*time.Second)) + 1
	for _, h := range w.hosts {
		at := byHost[h]
		if len(at) != want {
			e.Addf("host %s was polled %d times in %v, want %d", h.Name, len(at), now.Sub(w.t0), want)
			continue
		}
		for i, t := range at {
			if d := t.Sub(w.t0.Add(time.Duration(i) * 10 * time.Second)); d < -time.Second || d > time.Second {
				e.Addf("host %s: poll %d came %v after the start", h.Name, i, t.Sub(w.t0))
				break
			}
		}
	}
	return e.Err()
}

// opts selects what a query checks.
type opts struct{ data, hosts, badHosts, views, polls, self bool }

func (w *world) query(op Op, o opts) error {
	synctest.Wait()
	if o.data {
		if _, err := w.checkData(); err != nil {
			return err
		}
	}
	if o.hosts {
		if err := w.checkHosts(o.badHosts); err != nil {
			return err
		}
	}
	if o.views {
		if err := w.checkViews(op); err != nil {
			return err
		}
		if op.Path != "" {
			if err := w.check404(op.Path); err != nil {
				return err
			}
		}
	}
	if o.polls {
		if err := w.checkPolls(); err != nil {
			return err
		}
	}
	if o.self {
		if err := w.checkSelf(op); err != nil {
			return err
		}
	}
	return w.errs.Err()
}

// run executes a case.
func run(c Case, o opts) (err error) {
	if c.D <= 0 || len(c.Hosts) == 0 {
		return nil
	}
	time.Sleep(time.Duration(c.Offset))
	w := &world{c: c, d: time.Duration(c.D), byURL: map[string]*host{}}
	w.tr = &httpx.Transport{Answer: w.answer}
	defer w.tr.Install()()
	w.begin()
	defer func() {
		if e := w.end(); err == nil {
			err = e
		}
	}()
	for i, op := range c.Ops {
		h := w.hosts[op.Host%len(w.hosts)]
		switch op.Op {
		case "emit":
			w.emit(h, op.E)
		case "soak":
			for i := 0; i < op.N; i++ {
				w.emit(h, op.E)
				time.Sleep(w.d)
				synctest.Wait()
			}
		case "sleep":
			time.Sleep(time.Duration(op.Ns))
			synctest.Wait() // polls at this very moment come first
		case "set":
			w.mu.Lock()
			h.B = *op.B
			w.mu.Unlock()
		case "restart":
			w.start(h)
		case "query":
			if err := w.query(op, o); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		}
	}
	// let everything settle
	time.Sleep(10*time.Second - time.Since(w.t0)%(10*time.Second) + 9*time.Second)
	if err := w.query(Op{Op: "query", Sort: "count", Lim: "2"}, o); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	return nil
}
