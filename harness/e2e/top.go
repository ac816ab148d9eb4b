package e2e

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/core"
)

// Job and Host are entries of the API's documents.
type Job struct {
	Name       core.Str `json:"name"`
	Count      int64    `json:"count"`
	Success    int64    `json:"count_success"`
	Validation int64    `json:"count_validation_error"`
	Panic      int64    `json:"count_panic"`
	Error      int64    `json:"count_error"`
	Junk       int64    `json:"count_junk"`
	Sum        int64    `json:"nanos_sum"`
	Sq         float64  `json:"nanos_sum_squares"`
	Min        int64    `json:"nanos_min"`
	Max        int64    `json:"nanos_max"`
	Avg        float64  `json:"nanos_avg"`
	StdDev     float64  `json:"nanos_std_dev"`
}

type Host struct {
	HostPort string `json:"host_port"`
	Check    int64  `json:"check"` // unix seconds; 0: never
	Err      string `json:"err,omitempty"`
	Code     int    `json:"code"`
	Nanos    int64  `json:"nanos"`
}

// Phase is what healthd answers for a while.
type Phase struct {
	Kind  string `json:"kind"` // ok, garbage, cut, reset, refused, hang, hangBody
	Jobs  []Job  `json:"jobs,omitempty"`
	Hosts []Host `json:"hosts,omitempty"`
	Hold  bool   `json:"hold,omitempty"` // look at further frames, too
	Pad   int    `json:"pad,omitempty"`  // so much white space comes before the document
}

// Session is a run of healthtop.
type Session struct {
	View   string   `json:"view"` // jobs, hosts
	Rows   int      `json:"rows"`
	Sort   *string  `json:"sort,omitempty"`
	Name   core.Str `json:"name,omitempty"`
	Phases []Phase  `json:"phases"`
}

var ipSeq int64

// freeIP is an address on the loopback network that nobody else uses (so that all its ports are free).
func freeIP() string {
	n := atomic.AddInt64(&ipSeq, 1)
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 64+pid/250%120, 1+pid%250, 1+n%250)
}

func listen(addr string) (net.Listener, error) {
	var err error
	for i := 0; i < 50; i++ {
		var l net.Listener
		if l, err = net.Listen("tcp", addr); err == nil {
			return l, nil
		}
		time.Sleep(20 * time.Millisecond)
	}
	return nil, core.Inconclusive("cannot listen: %v", err)
}

// fake is a healthd whose answers are given.
type fake struct {
	mu    sync.Mutex
	addr  string
	srv   *http.Server
	p     Phase
	view  string
	reqs  []string // since the phase began
	sorts []string
	bad   string
	next  chan bool // closed when the phase ends
}

func (f *fake) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	f.mu.Lock()
	p, next := f.p, f.next
	f.reqs = append(f.reqs, r.Method+" "+r.URL.String())
	if r.Method != "GET" || r.URL.Path != "/healthd/"+f.view {
		f.bad = r.Method + " " + r.URL.String()
	}
	f.mu.Unlock()
	doc := map[string]interface{}{"instance_id": "host.1", "interval_duration": int64(time.Minute)}
	q := r.URL.Query()
	if f.view == "jobs" {
		f.mu.Lock()
		f.sorts = append(f.sorts, q.Get("sort"))
		f.mu.Unlock()
		jobs := p.Jobs
		if n, err := strconv.Atoi(q.Get("limit")); err == nil && n > 0 && n < len(jobs) {
			jobs = jobs[:n]
		}
		ms := []interface{}{}
		for _, j := range jobs {
			b, _ := json.Marshal(j)
			m := map[string]interface{}{}
			dec := json.NewDecoder(bytes.NewReader(b))
			dec.UseNumber()
			dec.Decode(&m)
			m["name"] = string(j.Name)
			ms = append(ms, m)
		}
		doc["jobs"] = ms
	} else {
		ms := []interface{}{}
		for _, h := range p.Hosts {
			m := map[string]interface{}{"host_port": h.HostPort, "last_check_time": h.time(), "last_instance_id": "x", "last_interval_duration": 1, "last_err": h.Err,
				"last_nanos": h.Nanos, "last_code": h.Code, "first_successful_response": time.Time{}, "last_successful_response": time.Time{}}
			ms = append(ms, m)
		}
		doc["hosts"] = ms
	}
	b, err := json.MarshalIndent(doc, "", "\t")
	if err != nil {
		panic("harness: " + err.Error())
	}
	if p.Pad > 0 {
		b = append(bytes.Repeat([]byte("\n"), p.Pad), b...)
	}
	rw.Header().Set("Content-Type", "application/json; charset=utf-8")
	switch p.Kind {
	case "ok":
		rw.Write(b)
	case "garbage":
		rw.Write([]byte("<html>502 Bad Gateway</html>"))
	case "cut":
		rw.Header().Set("Content-Length", fmt.Sprint(len(b)))
		rw.Write(b[:len(b)/2])
	case "hangBody":
		rw.Write(b[:len(b)/2])
		if fl, ok := rw.(http.Flusher); ok {
			fl.Flush()
		}
		fallthrough
	case "hang":
		select {
		case <-next:
		case <-r.Context().Done():
		}
		fallthrough
	case "reset":
		c, _, err := rw.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
	}
}

func (h Host) time() time.Time {
	if h.Check == 0 {
		return time.Time{}
	}
	return time.Unix(h.Check, 0).UTC()
}

func (f *fake) set(p Phase) error {
	f.mu.Lock()
	f.p, f.reqs = p, nil
	if f.next != nil {
		close(f.next)
	}
	f.next = make(chan bool)
	f.mu.Unlock()
	if p.Kind == "refused" {
		f.close()
		return nil
	}
	if f.srv == nil {
		l, err := listen(f.addr)
		if err != nil {
			return err
		}
		f.srv = &http.Server{Handler: f}
		f.srv.SetKeepAlivesEnabled(rand.Intn(2) == 0)
		go f.srv.Serve(l)
	}
	return nil
}

func (f *fake) close() {
	if f.srv != nil {
		f.srv.Close()
		f.srv = nil
	}
}

// nanos is how a time is shown.
func nanos(n int64) string {
	switch {
	case n > 2000000:
		return fmt.Sprintf("%d ms", n/1000000)
	case n > 1000:
		return fmt.Sprintf("%d μs", n/1000)
	}
	return fmt.Sprintf("%d ns", n)
}

const (
	red   = 31
	green = 32
)

// want is a column as it should be; fg is 0 if neither red nor green.
type want struct {
	text string
	fg   int
}

func jobRow(j Job) []want {
	fail := func(n int64) want {
		if n > 0 {
			return want{fmt.Sprint(n), red}
		}
		return want{fmt.Sprint(n), 0}
	}
	ok := want{fmt.Sprint(j.Success), 0}
	count := want{fmt.Sprint(j.Count), 0}
	if j.Count == j.Success {
		ok.fg, count.fg = green, green
	}
	return []want{{string(j.Name), 0}, count, ok, fail(j.Validation), fail(j.Panic), fail(j.Error), fail(j.Junk),
		{nanos(int64(j.Avg)), 0}, {nanos(int64(j.StdDev)), 0}, {nanos(j.Min), 0}, {nanos(j.Max), 0}, {nanos(j.Sum), 0}}
}

func hostRow(h Host) []want {
	st := want{"Success", green}
	if h.Code != 200 || h.Err != "" {
		st = want{"Failure: " + h.Err, red}
		if h.Check == 0 {
			st.text = "Unknown"
		}
	}
	st.text = strings.TrimSpace(st.text)
	return []want{{h.HostPort, 0}, st, {h.time().Format(time.RFC1123), 0}, {nanos(h.Nanos), 0}}
}

var jobCols = []string{"Job", "Total Count", "Success", "ValidationError", "Panic", "Error", "Junk", "Avg Response Time", "Stddev", "Min", "Max", "Total"}
var hostCols = []string{"Host:Port", "Status", "Last Checked", "Last Response Time"}

// expect is what the screen should show.
type expect struct {
	rows    int
	noData  bool
	cols    []string
	content [][]want
	failing bool // the last request failed
}

func matches(s *screen, e expect) error {
	if s.bad != "" {
		return fmt.Errorf("unexpected output: %s", s.bad)
	}
	ls := s.lines()
	all := strings.Join(ls, "\n")
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%s\nthe screen (%d lines):\n%s", fmt.Sprintf(format, a...), s.rows, strings.TrimRight(all, "\n"))
	}
	head := ls[0]
	if !strings.HasPrefix(head, "Current Time: ") {
		return fail("the first line is not the time and status")
	}
	st := strings.SplitN(strings.TrimPrefix(head, "Current Time: "), "Status:", 2)
	if len(st) != 2 {
		return fail("no status in the first line")
	}
	at, err := time.Parse(time.RFC1123, strings.TrimSpace(st[0]))
	if d := time.Since(at); err != nil || d < -2*time.Second || d > 40*time.Second {
		return fail("the current time is not %v (%v)", time.Now(), err)
	}
	status := strings.TrimSpace(st[1])
	switch {
	case strings.HasPrefix(status, "[error: '") && strings.HasSuffix(status, "]") && e.failing:
	case status == "[success]" && !e.failing:
	default:
		return fail("status %s (failing: %v)", status, e.failing)
	}
	if e.noData {
		if ls[1] != "no data yet" {
			return fail("there is no data yet")
		}
		for _, l := range ls[2:] {
			if l != "" {
				return fail("there is no data yet")
			}
		}
		return nil
	}
	fs := s.fields(1)
	for i, c := range e.cols {
		if i >= len(fs) || fs[i].text != c || len(fs) != len(e.cols) {
			return fail("the second line does not have the columns %q", e.cols)
		}
	}
	n := 0
	for 2+n < s.rows && ls[2+n] != "" {
		n++
	}
	for _, l := range ls[2+n:] {
		if l != "" {
			return fail("text after an empty line")
		}
	}
	if n > len(e.content) || n < len(e.content) && n < s.rows-2 {
		return fail("%d entries are shown, there are %d", n, len(e.content))
	}
	for i := 0; i < n; i++ {
		fs := s.fields(2 + i)
		if len(fs) != len(e.content[i]) {
			return fail("entry %d has %d columns, want %q", i, len(fs), e.content[i])
		}
		for k, w := range e.content[i] {
			f := fs[k]
			fg := f.fg
			if fg != red && fg != green && fg != -1 {
				fg = 0
			}
			if f.text != w.text || fg != w.fg {
				return fail("entry %d, %s: %q in colour %d, want %q in colour %d", i, e.cols[k], f.text, f.fg, w.text, w.fg)
			}
		}
	}
	return nil
}

// proc is a running command.
type proc struct {
	cmd    *exec.Cmd
	stderr lockedBuf
	done   chan struct{}
	err    error
}

func (p *proc) start() error {
	p.cmd.Stderr = &p.stderr
	if p.cmd.SysProcAttr == nil {
		p.cmd.SysProcAttr = &syscall.SysProcAttr{}
	}
	p.cmd.SysProcAttr.Pdeathsig = syscall.SIGKILL
	p.done = make(chan struct{})
	if err := p.cmd.Start(); err != nil {
		return core.Inconclusive("cannot start %s: %v", p.cmd.Path, err)
	}
	go func() { p.err = p.cmd.Wait(); close(p.done) }()
	return nil
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	<-p.done
}

// ended tells why the process has ended, if it has.
func (p *proc) ended() error {
	select {
	case <-p.done:
		msg := p.stderr.String()
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		return fmt.Errorf("%s ended (%v): %s", p.cmd.Path[strings.LastIndex(p.cmd.Path, "/")+1:], p.err, msg)
	default:
		return nil
	}
}

// patience is how long something may take that should happen within two seconds.
const patience = 15 * time.Second

// top is a healthtop on a terminal.
type top struct {
	proc
	term          *terminal
	master, slave *os.File
}

func startTop(rows int, args ...string) (*top, error) {
	bin := os.Getenv("VP_TOP")
	if bin == "" {
		return nil, core.Inconclusive("no healthtop")
	}
	master, slave, err := openPty(rows, 700)
	if err != nil {
		return nil, core.Inconclusive("no pseudo-terminal: %v", err)
	}
	t := &top{term: &terminal{s: newScreen(rows, 700)}, master: master, slave: slave}
	t.cmd = exec.Command(bin, args...)
	t.cmd.Stdout = slave
	t.cmd.Env = append(os.Environ(), "TZ=UTC", "TERM=xterm")
	if err := t.start(); err != nil {
		master.Close()
		slave.Close()
		return nil, err
	}
	go func() {
		buf := make([]byte, 1<<16)
		for {
			n, err := master.Read(buf)
			t.term.Write(buf[:n])
			if err != nil {
				return
			}
		}
	}()
	return t, nil
}

func (t *top) close() {
	t.stop()
	t.slave.Close()
	t.master.Close()
}

// await waits until the screen is as expected.
func (t *top) await(e expect) error {
	end := time.Now().Add(patience)
	for {
		s, _ := t.term.now()
		err := matches(s, e)
		if err == nil {
			return nil
		}
		if dead := t.ended(); dead != nil {
			return dead
		}
		if time.Now().After(end) {
			return fmt.Errorf("the screen has not been right for %v: %v", patience, err)
		}
		time.Sleep(15 * time.Millisecond)
	}
}

// stays checks the frames of the next seconds.
func (t *top) stays(e expect, frames int) (err error) {
	for i := 0; i < 3; i++ { // (on a busy machine an earlier answer may arrive only now)
		if err := t.await(e); err != nil {
			return err
		}
		if err = t.staysNow(e, frames); err == nil {
			return nil
		}
	}
	return err
}

func (t *top) staysNow(e expect, frames int) error {
	t.term.take()
	end := time.Now().Add(patience)
	for n := -1; n < frames; { // (the first one may have begun before)
		for _, s := range t.term.take() {
			if n++; n > 0 {
				if err := matches(s, e); err != nil {
					return fmt.Errorf("the screen was right, but then: %v", err)
				}
			}
		}
		if dead := t.ended(); dead != nil {
			return dead
		}
		if time.Now().After(end) {
			return fmt.Errorf("the screen is not updated any more (%d updates in %v)", n, patience)
		}
		time.Sleep(20 * time.Millisecond)
	}
	return nil
}

func runSession(se Session) error {
	f := &fake{addr: freeIP() + ":5031", view: se.View}
	defer f.close()
	args := []string{se.View, "--source", f.addr}
	wantSort := "name"
	if se.View == "jobs" {
		if se.Sort != nil {
			args = append(args, "--sort="+*se.Sort)
			wantSort = *se.Sort
		}
		if se.Name != "" {
			args = append(args, "--name="+string(se.Name))
		}
	}
	var t *top
	e := expect{rows: se.Rows, noData: true, cols: jobCols}
	if se.View == "hosts" {
		e.cols = hostCols
	}
	for i, p := range se.Phases {
		if err := f.set(p); err != nil {
			return err
		}
		if t == nil {
			var err error
			if t, err = startTop(se.Rows, args...); err != nil {
				return err
			}
			defer t.close()
		}
		e.failing = p.Kind != "ok"
		if p.Kind == "ok" {
			e.noData = false
			e.content = nil
			for _, j := range p.Jobs {
				if strings.Contains(string(j.Name), string(se.Name)) {
					e.content = append(e.content, jobRow(j))
				}
			}
			for _, h := range p.Hosts {
				e.content = append(e.content, hostRow(h))
			}
		}
		err := t.await(e)
		if err == nil && p.Hold && (i == 0 || !strings.HasPrefix(se.Phases[i-1].Kind, "hang")) {
			err = t.stays(e, 2)
		}
		f.mu.Lock()
		if err != nil {
			err = fmt.Errorf("phase %d (%s): %v\nrequests: %q", i, p.Kind, err, f.reqs)
		}
		if f.bad != "" && err == nil {
			err = fmt.Errorf("unexpected request %s", f.bad)
		}
		for _, s := range f.sorts {
			if s != wantSort && err == nil {
				err = fmt.Errorf("jobs requested in order %q, want %q", s, wantSort)
			}
		}
		f.mu.Unlock()
		if err != nil {
			return fmt.Errorf("healthtop %q: %w", args, err)
		}
	}
	return nil
}

// Case are sessions at the same time.
type Case struct {
	Sessions []Session `json:"sessions"`
}

func runCase(c Case) error {
	errs := make([]error, len(c.Sessions))
	var wg sync.WaitGroup
	for i := range c.Sessions {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = runSession(c.Sessions[i])
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}
