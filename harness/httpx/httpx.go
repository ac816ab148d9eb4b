// Package httpx records HTTP requests and answers them as told, in virtual time. The check program builds the tests with an
// overlay that makes every http.Transport, whoever made it, do what http.DefaultClient.Transport does if that is set; without
// that overlay, only what uses http.DefaultTransport is recorded.
package httpx

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/harness/core"
)

// Answer is how a request is answered.
type Answer struct {
	// ok, status (Status, Body), refused, reset, hang (never answers), hangBody (answers, but the body never ends),
	// cutBody (the body breaks off; both optionally with Status and Body), hugeBody, slowBody (Delay between its two parts), panicky is not there on purpose.
	Kind   string   `json:"kind"`
	Status int      `json:"status,omitempty"`
	Body   core.Str `json:"body,omitempty"`
	Delay  int64    `json:"delay,omitempty"` // before answering
	Gap    int64    `json:"gap,omitempty"`   // slowBody: between its two halves (0: 5 s)
	Cause  string   `json:"-"`               // refused, reset: is in the error
}

// Blocks tells whether it is up to the client to give up.
func (a Answer) Blocks() bool { return a.Kind == "hang" || a.Kind == "hangBody" }

// OK tells whether it is a prompt success.
func (a Answer) OK() bool { return a.Kind == "ok" || a.Kind == "" }

// Req is a recorded request.
type Req struct {
	Method, URL string
	Header      http.Header
	Body        []byte
	User, Pass  string
	Auth        bool
	At          time.Time
	Done        time.Time // when the transport answered or gave up; zero while it is pending
	Failed      bool      // the transport gave no response
	Closed      time.Time // when the response body was closed; zero while it is open
	EOF         bool      // the response body was read to its end
	Answer      Answer
}

// Transport records and answers.
type Transport struct {
	mu      sync.Mutex
	reqs    []*Req
	pending int
	open    int // response bodies not closed
	bodies  int
	Answer  func(i int, r *Req) Answer
	Limit   int  // more requests than the case makes, or 0
	Forget  bool // requests aren't kept
	count   int
}

type probe struct{ hit bool }

func (p *probe) RoundTrip(*http.Request) (*http.Response, error) {
	p.hit = true
	return nil, errors.New("probed")
}

// overlaid tells whether http.Transport has been overlaid.
var overlaid = func() bool {
	p := &probe{}
	old := http.DefaultClient.Transport
	http.DefaultClient.Transport = p
	defer func() { http.DefaultClient.Transport = old }()
	req, err := http.NewRequest("GET", "probe://probe/", nil)
	if err != nil {
		return false
	}
	(&http.Transport{}).RoundTrip(req)
	return p.hit
}()

// Install makes it what every transport does; call the result to undo that.
func (t *Transport) Install() func() {
	if overlaid {
		old := http.DefaultClient.Transport
		http.DefaultClient.Transport = t
		return func() { http.DefaultClient.Transport = old }
	}
	old := http.DefaultTransport
	http.DefaultTransport = t
	return func() { http.DefaultTransport = old }
}

// Reqs are the requests so far.
func (t *Transport) Reqs() []*Req {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.reqs[:len(t.reqs):len(t.reqs)]
}

// Open is the number of response bodies that are not closed, Pending that of requests without response.
func (t *Transport) Open() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.open
}

func (t *Transport) Pending() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.pending
}

// CloseIdleConnections is there because http.Client looks for it.
func (t *Transport) CloseIdleConnections() {}

// RoundTrip implements http.RoundTripper.
func (t *Transport) RoundTrip(req *http.Request) (resp *http.Response, err error) {
	r := &Req{Method: req.Method, URL: req.URL.String(), Header: req.Header.Clone(), At: time.Now()}
	r.User, r.Pass, r.Auth = req.BasicAuth()
	if req.Body != nil {
		r.Body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	t.mu.Lock()
	i := t.count
	t.count++
	if !t.Forget {
		t.reqs = append(t.reqs, r)
	}
	t.pending++
	t.mu.Unlock()
	a := Answer{Kind: "ok"}
	if t.Answer != nil {
		a = t.Answer(i, r)
	}
	r.Answer = a
	defer func() {
		t.mu.Lock()
		t.pending--
		r.Done, r.Failed = time.Now(), err != nil
		t.mu.Unlock()
	}()
	ctx := req.Context()
	if t.Limit > 0 && i > t.Limit {
		// Someone sends without end: let time go on, so that the case ends and its oracle can say so.
		a.Delay += 1e9
	}
	if err := wait(ctx, req.Cancel, time.Duration(a.Delay)); err != nil {
		return nil, err
	}
	resp = &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"text/plain"}}, Request: req, ContentLength: -1}
	body := &body{t: t, r: r, ctx: ctx, cancel: req.Cancel, closed: make(chan bool)}
	switch a.Kind {
	case "refused":
		return nil, fmt.Errorf("dial tcp 127.0.0.1:443: connect: %w%s", syscall.ECONNREFUSED, a.Cause)
	case "reset":
		return nil, fmt.Errorf("read tcp 127.0.0.1:443: %w%s", syscall.ECONNRESET, a.Cause)
	case "hang":
		return nil, wait(ctx, req.Cancel, -1)
	case "ok", "":
		body.parts = [][]byte{[]byte("OK")}
	case "status":
		resp.StatusCode = a.Status
		body.parts = [][]byte{[]byte(a.Body)}
	case "hangBody", "cutBody":
		body.parts = [][]byte{[]byte("O")}
		if a.Body != "" {
			body.parts = [][]byte{[]byte(a.Body)}
		}
		if a.Status != 0 {
			resp.StatusCode = a.Status
		}
		body.end = strings.TrimSuffix(a.Kind, "Body")
	case "slowBody":
		body.parts = [][]byte{[]byte("O"), []byte("K")}
		body.gap = 5 * time.Second
		if a.Gap > 0 {
			body.parts = [][]byte{[]byte(a.Body[:len(a.Body)/2]), []byte(a.Body[len(a.Body)/2:])}
			body.gap = time.Duration(a.Gap)
			if a.Status != 0 {
				resp.StatusCode = a.Status
			}
		}
	case "hugeBody":
		for i := 0; i < 64; i++ {
			body.parts = append(body.parts, bytes.Repeat([]byte("x"), 16<<10))
		}
	}
	resp.Status = fmt.Sprintf("%d %s", resp.StatusCode, http.StatusText(resp.StatusCode))
	resp.Body = body
	t.mu.Lock()
	t.open++
	t.bodies++
	t.mu.Unlock()
	return resp, nil
}

// wait waits for d (forever if negative) or until the request is cancelled.
func wait(ctx context.Context, cancel <-chan struct{}, d time.Duration) error {
	if d == 0 {
		return ctx.Err()
	}
	var c <-chan time.Time
	if d > 0 {
		tm := time.NewTimer(d)
		defer tm.Stop()
		c = tm.C
	}
	select {
	case <-c:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	case <-cancel:
		return errors.New("request cancelled")
	}
}

type body struct {
	t      *Transport
	r      *Req
	ctx    context.Context
	cancel <-chan struct{}
	parts  [][]byte
	gap    time.Duration
	end    string
	once   sync.Once
	closed chan bool
	read   bool
}

func (b *body) Read(p []byte) (int, error) {
	select {
	case <-b.closed:
		return 0, errors.New("read on closed body")
	default:
	}
	if len(b.parts) == 0 {
		switch b.end {
		case "hang":
			select {
			case <-b.ctx.Done():
				return 0, b.ctx.Err()
			case <-b.cancel:
				return 0, errors.New("request cancelled")
			case <-b.closed:
				return 0, errors.New("closed while reading")
			}
		case "cut":
			return 0, io.ErrUnexpectedEOF
		}
		b.t.mu.Lock()
		b.r.EOF = true
		b.t.mu.Unlock()
		return 0, io.EOF
	}
	if b.read && b.gap > 0 {
		if err := wait(b.ctx, b.cancel, b.gap); err != nil {
			return 0, err
		}
	}
	b.read = false
	n := copy(p, b.parts[0])
	if b.parts[0] = b.parts[0][n:]; len(b.parts[0]) == 0 {
		b.parts = b.parts[1:]
		b.read = true // the next one comes after the gap
	}
	return n, nil
}

func (b *body) Close() error {
	b.once.Do(func() {
		close(b.closed)
		b.t.mu.Lock()
		b.t.open--
		b.r.Closed = time.Now()
		b.t.mu.Unlock()
	})
	return nil
}

// GenAnswer draws an answer; faulty in most cases if faults is set.
func GenAnswer(t *rapid.T, faults bool) Answer {
	if !faults || core.Chance(t, "fine", 1, 3) {
		a := Answer{Kind: "ok"}
		if core.Chance(t, "slow", 1, 6) {
			a.Delay = core.Pick[int64](t, "delay", 1, 1e6, 1e9, 7e9)
		}
		return a
	}
	a := Answer{Kind: core.Pick(t, "answer", "status", "status", "refused", "reset", "hang", "hangBody", "cutBody", "slowBody", "hugeBody")}
	if a.Kind == "status" {
		a.Status = core.Pick(t, "status", 200, 201, 202, 204, 301, 302, 304, 307, 400, 401, 403, 404, 408, 413, 418, 422, 429, 500, 502, 503, 504, 599)
		a.Body = core.Str(core.Pick(t, "body", "", "OK", "ok", "nope", "{\"errors\":{}}", strings.Repeat("<html>", 2000)))
	}
	if core.Chance(t, "slow", 1, 4) {
		a.Delay = core.Pick[int64](t, "delay", 1, 1e6, 1e9, 12e9, 29e9)
	}
	return a
}
