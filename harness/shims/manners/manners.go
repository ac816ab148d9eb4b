// Package manners stands in for github.com/braintree/manners when healthd runs under the harness:
// it listens on nothing and hands the handler it was given to the harness instead.
package manners

import (
	"crypto/tls"
	"net"
	"net/http"
	"sync"
)

type GracefulServer struct {
	*http.Server
	mu     sync.Mutex
	closed bool
	done   chan struct{}
}

var (
	regMu    sync.Mutex
	registry = map[string]*GracefulServer{}
	deflt    *GracefulServer
)

func NewServer() *GracefulServer { return NewWithServer(new(http.Server)) }

func NewWithServer(s *http.Server) *GracefulServer {
	g := &GracefulServer{Server: s, done: make(chan struct{})}
	regMu.Lock()
	registry[s.Addr] = g
	regMu.Unlock()
	return g
}

func (g *GracefulServer) wait() error {
	regMu.Lock()
	registry[g.Addr] = g
	regMu.Unlock()
	<-g.done
	return nil
}

func (g *GracefulServer) ListenAndServe() error                         { return g.wait() }
func (g *GracefulServer) ListenAndServeTLS(c, k string) error           { return g.wait() }
func (g *GracefulServer) Serve(l net.Listener) error                    { return g.wait() }
func (g *GracefulServer) ListenAndServeTLSWithConfig(*tls.Config) error { return g.wait() }

func (g *GracefulServer) Close() bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.closed {
		return false
	}
	g.closed = true
	close(g.done)
	return true
}

func (g *GracefulServer) BlockingClose() bool { return g.Close() }

func ListenAndServe(addr string, h http.Handler) error {
	g := NewWithServer(&http.Server{Addr: addr, Handler: h})
	regMu.Lock()
	deflt = g
	regMu.Unlock()
	return g.wait()
}

func Close() bool {
	regMu.Lock()
	g := deflt
	regMu.Unlock()
	return g != nil && g.Close()
}

// Handler is for the harness: the handler registered for addr, and whether its server has been closed.
func Handler(addr string) (h http.Handler, closed bool) {
	regMu.Lock()
	g := registry[addr]
	regMu.Unlock()
	if g == nil {
		return nil, false
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.Handler, g.closed
}

// Forget is for the harness.
func Forget(addr string) {
	regMu.Lock()
	delete(registry, addr)
	regMu.Unlock()
}
