package httpx

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"time"
)

// Pipes lets every http.Transport do what it does, on connections that lead to a server in this process.
type Pipes struct {
	Answer func(i int, r *Req) Answer
	mu     sync.Mutex
	count  int
	conns  map[net.Conn]bool
}

// Install redirects the transports' connections, if that is possible; call the result to undo that.
func (p *Pipes) Install() (undo func(), ok bool) {
	def, isTransport := http.DefaultTransport.(*http.Transport)
	if !overlaid || !isTransport {
		return nil, false
	}
	p.conns = map[net.Conn]bool{}
	old, oldTLS, oldRT := def.DialContext, def.DialTLSContext, http.DefaultClient.Transport
	http.DefaultClient.Transport = p
	return func() {
		p.mu.Lock()
		conns := p.conns
		p.conns = nil
		p.mu.Unlock()
		for c := range conns {
			c.Close()
		}
		def.CloseIdleConnections()
		http.DefaultClient.Transport = oldRT
		def.DialContext, def.DialTLSContext = old, oldTLS
	}, true
}

// Conns is the number of open connections.
func (p *Pipes) Conns() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.conns)
}

// RoundTrip implements http.RoundTripper.
func (p *Pipes) RoundTrip(req *http.Request) (*http.Response, error) {
	t, _ := req.Context().Value("verif.transport").(*http.Transport)
	if t == nil {
		panic("harness: not called by a transport")
	}
	p.mu.Lock()
	t.DialContext, t.DialTLSContext = p.dial, p.dial
	p.mu.Unlock()
	return t.RoundTrip(req)
}

func (p *Pipes) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	c, s := net.Pipe()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.conns == nil {
		return nil, fmt.Errorf("dial %s: the case is over", addr)
	}
	p.conns[s] = true
	go p.serve(s)
	return c, nil
}

func (p *Pipes) serve(c net.Conn) {
	defer func() {
		c.Close()
		p.mu.Lock()
		delete(p.conns, c)
		p.mu.Unlock()
	}()
	br := bufio.NewReaderSize(c, 1024)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		r := &Req{Method: req.Method, URL: "http://" + req.Host + req.URL.String(), At: time.Now()}
		r.Body, err = io.ReadAll(req.Body)
		if err != nil {
			return
		}
		p.mu.Lock()
		i := p.count
		p.count++
		p.mu.Unlock()
		a := Answer{Kind: "ok"}
		if p.Answer != nil {
			a = p.Answer(i, r)
		}
		// The client may have gone away at any time.
		gone, next := make(chan bool), make(chan bool)
		go func() {
			if _, err := br.Peek(1); err != nil {
				close(gone)
			}
			close(next)
		}()
		if !p.answer(c, a, gone) || req.Close {
			c.Close()
			<-next
			return
		}
		<-next
	}
}

// pause waits, unless the client is gone.
func pause(ns int64, gone chan bool) bool {
	if ns <= 0 {
		return true
	}
	tm := time.NewTimer(time.Duration(ns))
	defer tm.Stop()
	select {
	case <-tm.C:
		return true
	case <-gone:
		return false
	}
}

// answer answers and tells whether the connection can be used again.
func (p *Pipes) answer(c net.Conn, a Answer, gone chan bool) bool {
	if !pause(a.Delay, gone) {
		return false
	}
	whole := func(status int, body []byte) bool {
		var b bytes.Buffer
		fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", status, http.StatusText(status))
		if status != 204 && status != 304 {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
		} else {
			body = nil
		}
		b.WriteString("\r\n")
		b.Write(body)
		_, err := c.Write(b.Bytes())
		return err == nil
	}
	part := "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nO\r\n"
	switch a.Kind {
	case "ok", "":
		return whole(200, []byte("OK"))
	case "status":
		return whole(a.Status, []byte(a.Body))
	case "hugeBody":
		return whole(200, bytes.Repeat([]byte("x"), 64<<10))
	case "hang":
		<-gone
	case "hangBody":
		io.WriteString(c, part)
		<-gone
	case "cutBody":
		io.WriteString(c, part)
	case "slowBody":
		if _, err := io.WriteString(c, part); err != nil || !pause(5e9, gone) {
			return false
		}
		_, err := io.WriteString(c, "1\r\nK\r\n0\r\n\r\n")
		return err == nil
	}
	return false // refused, reset
}
