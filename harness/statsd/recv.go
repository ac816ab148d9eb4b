// Package statsd checks the StatsD sink against what a UDP server on the loopback interface really receives. The sink
// runs in virtual time; the receiver runs outside of it.
package statsd

import (
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/core"
)

// Recv is a UDP server that keeps what it receives.
type Recv struct {
	fd    int
	Port  int
	host  string
	mu    sync.Mutex
	grams [][]byte
	gone  bool
}

// Every case has a server of its own, so that nothing sent late by an earlier one can get into it. Servers run outside
// of the bubbles, so something outside has to start them.
var (
	wanted = make(chan string)
	made   = make(chan *Recv)
	server *Recv
)

func init() {
	go func() {
		for host := range wanted {
			r := newRecv(host)
			go r.receive()
			made <- r
		}
	}()
}

// freshServer replaces the server by one on the given host, "127.0.0.1" or "[::1]".
func freshServer(host string) {
	if server != nil {
		server.mu.Lock()
		server.gone = true
		server.mu.Unlock()
	}
	wanted <- host
	server = <-made
}

// listen binds a socket to any port of the host.
func listen(host string) (fd, port int, err error) {
	domain, addr := syscall.AF_INET, syscall.Sockaddr(&syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	if host == "[::1]" {
		domain, addr = syscall.AF_INET6, &syscall.SockaddrInet6{Addr: [16]byte{15: 1}}
	}
	if fd, err = syscall.Socket(domain, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 0); err != nil {
		return
	}
	defer func() {
		if err != nil {
			syscall.Close(fd)
		}
	}()
	if err = syscall.Bind(fd, addr); err != nil {
		return
	}
	sa, err := syscall.Getsockname(fd)
	switch sa := sa.(type) {
	case *syscall.SockaddrInet4:
		port = sa.Port
	case *syscall.SockaddrInet6:
		port = sa.Port
	}
	return
}

// IPv6 is whether this machine has an IPv6 loopback interface, and sockets for both protocols reach it.
var IPv6 = func() bool {
	fd, port, err := listen("[::1]")
	if err != nil {
		return false
	}
	defer syscall.Close(fd)
	c, err := net.ListenPacket("udp", ":0")
	if err != nil {
		return false
	}
	defer c.Close()
	_, err = c.WriteTo([]byte("x"), &net.UDPAddr{IP: net.IPv6loopback, Port: port})
	return err == nil
}()

func newRecv(host string) *Recv {
	fd, port, err := listen(host)
	if err != nil {
		panic("harness: socket: " + err.Error())
	}
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4<<20)
	tv := syscall.NsecToTimeval(50e6)
	syscall.SetsockoptTimeval(fd, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &tv)
	return &Recv{fd: fd, Port: port, host: host}
}

func (r *Recv) receive() {
	buf := make([]byte, 1<<16)
	for {
		n, _, err := syscall.Recvfrom(r.fd, buf, 0)
		r.mu.Lock()
		gone := r.gone
		if err == nil && !gone {
			r.grams = append(r.grams, append([]byte(nil), buf[:n]...))
		}
		r.mu.Unlock()
		if gone || err != nil && err != syscall.EINTR && err != syscall.EAGAIN {
			syscall.Close(r.fd)
			return
		}
	}
}

// Addr is its address.
func (r *Recv) Addr() string { return r.host + ":" + strconv.Itoa(r.Port) }

// Grams are the datagrams so far.
func (r *Recv) Grams() [][]byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.grams[:len(r.grams):len(r.grams)]
}

// realSleep sleeps in real time, even in a bubble.
func realSleep(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	syscall.Nanosleep(&ts, nil)
}

func realNow() time.Duration {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return time.Duration(tv.Nano())
}

// Await waits in real time until ok says yes to what was received; false after max.
func (r *Recv) Await(max time.Duration, ok func([][]byte) bool) bool {
	end := realNow() + max
	last := -1
	for i := 0; ; i++ {
		g := r.Grams()
		if len(g) != last && ok(g) {
			return true
		}
		last = len(g)
		if realNow() > end {
			return ok(r.Grams())
		}
		if i < 20 {
			realSleep(10 * time.Microsecond)
		} else {
			realSleep(500 * time.Microsecond)
		}
	}
}

// dropped is how many datagrams the kernel has dropped for lack of buffer space.
func (r *Recv) dropped() int64 {
	file := "/proc/net/udp"
	if r.host == "[::1]" {
		file = "/proc/net/udp6"
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return 0
	}
	suffix := fmt.Sprintf(":%04X", r.Port)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 12 && strings.HasSuffix(f[1], suffix) {
			n, _ := strconv.ParseInt(f[len(f)-1], 10, 64)
			return n
		}
	}
	return 0
}

// lost turns err into an inconclusive one if the kernel has dropped datagrams meanwhile.
func (r *Recv) lost(err error) error {
	if err == nil {
		return nil
	}
	if d := r.dropped(); d > 0 {
		return core.Inconclusive("the kernel dropped %d datagrams", d)
	}
	return err
}

// Fresh is a new server, for other packages.
func Fresh() *Recv {
	wanted <- "127.0.0.1"
	return <-made
}

// Close ends it.
func (r *Recv) Close() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.gone = true
}

// Lost turns err into an inconclusive one if the kernel has dropped datagrams meanwhile.
func (r *Recv) Lost(err error) error { return r.lost(err) }

// Lines are the metric lines received so far.
func (r *Recv) Lines() ([]string, error) { return split(r.Grams()) }
