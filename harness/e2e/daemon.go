package e2e

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"

	"verif/harness/core"
)

// Monitored is a host that the daemon monitors.
type Monitored struct {
	Jobs  map[string]int `json:"jobs"` // completions by job
	Ago   int            `json:"ago"`  // how many intervals ago
	Kind  string         `json:"kind"` // ok, garbage, down
	Again bool           `json:"again,omitempty"`
}

// Daemon is a run of the healthd command.
type Daemon struct {
	Hosts []Monitored `json:"hosts"`
	None  bool        `json:"none,omitempty"` // no hosts are given
	Self  bool        `json:"self,omitempty"` // wait until it has polled itself
	Top   string      `json:"top,omitempty"`  // also run healthtop
}

type hostDoc struct {
	Instance     string        `json:"instance_id"`
	D            int64         `json:"interval_duration"`
	Aggregations []interface{} `json:"aggregations"`
}

func (m Monitored) doc(id string, now time.Time) []byte {
	jobs := map[string]interface{}{}
	for k, n := range m.Jobs {
		jobs[k] = map[string]interface{}{"timers": map[string]int{}, "gauges": map[string]int{}, "events": map[string]int{}, "event_errs": map[string]int{},
			"count": n, "nanos_sum": n * 1000, "nanos_sum_squares": n * 1000000, "nanos_min": 1000, "nanos_max": 1000, "count_success": n,
			"count_validation_error": 0, "count_panic": 0, "count_error": 0, "count_junk": 0}
	}
	start := now.Truncate(time.Minute).Add(-time.Duration(m.Ago) * time.Minute)
	b, err := json.Marshal(hostDoc{Instance: id, D: int64(time.Minute), Aggregations: []interface{}{map[string]interface{}{
		"timers": map[string]int{}, "gauges": map[string]int{}, "events": map[string]int{}, "event_errs": map[string]int{},
		"jobs": jobs, "interval_start": start, "serial_number": 1}}})
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

func getDoc(url string, v interface{}) error {
	c := http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	resp, err := c.Get(url)
	if err != nil {
		return err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return err
	}
	if resp.StatusCode != 200 {
		return fmt.Errorf("GET %s: %d: %.200s", url, resp.StatusCode, b)
	}
	return json.Unmarshal(b, v)
}

// within repeats f until it works or time is up.
func within(d time.Duration, p *proc, f func() error) error {
	end := time.Now().Add(d)
	for {
		err := f()
		if err == nil {
			return nil
		}
		if p != nil {
			if dead := p.ended(); dead != nil {
				return dead
			}
		}
		if time.Now().After(end) {
			return fmt.Errorf("not within %v: %v", d, err)
		}
		time.Sleep(50 * time.Millisecond)
	}
}

type jobsDoc struct {
	Jobs []struct {
		Name    string `json:"name"`
		Count   int    `json:"count"`
		Success int    `json:"count_success"`
		Sum     int64  `json:"nanos_sum"`
	} `json:"jobs"`
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func runDaemon(d Daemon) error {
	bin := os.Getenv("VP_HEALTHD")
	if bin == "" {
		return core.Inconclusive("no healthd")
	}
	ip := freeIP()
	api, own := ip+":5031", ip+":5030"
	var out lockedBuf
	p := &proc{cmd: exec.Command(bin)}
	p.cmd.Stdout = &out
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "HEALTH") {
			p.cmd.Env = append(p.cmd.Env, kv)
		}
	}
	p.cmd.Env = append(p.cmd.Env, "HEALTHD_SERVER_HOSTPORT="+api, "HEALTH_HOSTPORT="+own)
	if d.None {
		if err := p.start(); err != nil {
			return err
		}
		defer p.stop()
		select {
		case <-p.done:
		case <-time.After(patience):
			return fmt.Errorf("without hosts to monitor, healthd runs on")
		}
		if p.cmd.ProcessState.ExitCode() != 1 || !strings.Contains(out.String(), "HEALTHD_MONITORED_HOSTPORTS") {
			return fmt.Errorf("without hosts to monitor, healthd exits with %d and says %q", p.cmd.ProcessState.ExitCode(), out.String())
		}
		return nil
	}
	var hps, listed []string
	want := map[string]int{}
	for i, m := range d.Hosts {
		hp := freeIP() + ":5020"
		hps = append(hps, hp)
		listed = append(listed, hp)
		if m.Again {
			hps = append(hps, hp)
		}
		if m.Kind == "down" {
			continue
		}
		l, err := listen(hp)
		if err != nil {
			return err
		}
		doc := m.doc(fmt.Sprint("i", i), time.Now())
		srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			if m.Kind == "garbage" {
				io.WriteString(rw, "garbage")
				return
			}
			rw.Write(doc)
		})}
		go srv.Serve(l)
		defer srv.Close()
		if m.Kind == "ok" {
			for k, n := range m.Jobs {
				want[k] += n
			}
		}
	}
	listed = append(listed, own)
	sort.Strings(listed)
	p.cmd.Env = append(p.cmd.Env, "HEALTHD_MONITORED_HOSTPORTS="+strings.Join(hps, ","))
	if err := p.start(); err != nil {
		return err
	}
	defer p.stop()

	// its hosts
	err := within(patience, p, func() error {
		var hd struct {
			Hosts []struct {
				HostPort string    `json:"host_port"`
				Check    time.Time `json:"last_check_time"`
				Err      string    `json:"last_err"`
				Code     int       `json:"last_code"`
			} `json:"hosts"`
		}
		if err := getDoc("http://"+api+"/healthd/hosts", &hd); err != nil {
			return err
		}
		var got []string
		for _, h := range hd.Hosts {
			got = append(got, h.HostPort)
			if h.Check.IsZero() {
				return fmt.Errorf("%s has not been polled", h.HostPort)
			}
			for i, m := range d.Hosts {
				if listed2(hps, d.Hosts)[i] == h.HostPort && (m.Kind == "ok") != (h.Code == 200 && h.Err == "") {
					return fmt.Errorf("host %s (%s) is reported with status %d and error %q", h.HostPort, m.Kind, h.Code, h.Err)
				}
			}
		}
		if strings.Join(got, ",") != strings.Join(listed, ",") {
			return fmt.Errorf("hosts %q, want %q", got, listed)
		}
		return nil
	})
	if err != nil {
		return fmt.Errorf("hosts: %w", err)
	}

	// their jobs, and in the end its own ones
	limit := patience
	if d.Self {
		limit += 15 * time.Second
	}
	err = within(limit, p, func() error {
		var doc jobsDoc
		if err := getDoc("http://"+api+"/healthd/jobs", &doc); err != nil {
			return err
		}
		got := map[string]int{}
		self := false
		for _, j := range doc.Jobs {
			if j.Name == "general" || j.Name == "poll" || j.Name == "recalculate" || strings.HasPrefix(j.Name, "/healthd/") {
				self = self || j.Name == "poll" && j.Count > len(d.Hosts)
				continue
			}
			got[j.Name] = j.Count
			if j.Success != j.Count || j.Sum != int64(j.Count)*1000 {
				return fmt.Errorf("job %+v", j)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("jobs %v, want %v", got, want)
		}
		if d.Self && !self {
			return fmt.Errorf("the job poll is not among them: %+v", doc.Jobs)
		}
		return nil
	})
	if err != nil {
		return fmt.Errorf("jobs: %w", err)
	}

	// its own health, and its log
	err = within(patience, p, func() error {
		var doc struct {
			D    int64 `json:"interval_duration"`
			Aggs []struct {
				Events map[string]int `json:"events"`
				Jobs   map[string]struct {
					Count int `json:"count"`
				} `json:"jobs"`
			} `json:"aggregations"`
		}
		if err := getDoc("http://"+own+"/health", &doc); err != nil {
			return err
		}
		if doc.D != int64(time.Minute) {
			return fmt.Errorf("intervals of %d", doc.D)
		}
		polls, starting := 0, 0
		for _, a := range doc.Aggs {
			polls += a.Jobs["poll"].Count
			starting += a.Events["starting"]
		}
		if polls < len(listed) || starting != 1 {
			return fmt.Errorf("%d polls, %d times starting", polls, starting)
		}
		return nil
	})
	if err != nil {
		return fmt.Errorf("its own health: %w", err)
	}
	err = within(patience, p, func() error {
		s := out.String()
		for _, x := range []string{"event:starting", "monitored_host_ports:" + strings.Join(append(hps, own), ","), "server_host_port:" + api, "health_host_port:" + own, "job:poll", "job:/healthd/hosts event:starting_request"} {
			if !strings.Contains(s, x) {
				return fmt.Errorf("no %q in its output: %.1500s", x, s)
			}
		}
		return nil
	})
	if err != nil {
		return fmt.Errorf("its log: %w", err)
	}

	if d.Top != "" {
		t, err := startTop(50, d.Top, "--source", api)
		if err != nil {
			return err
		}
		defer t.close()
		err = within(patience, &t.proc, func() error {
			s, _ := t.term.now()
			rows := map[string]string{}
			for i := range s.cells {
				if f := s.fields(i); len(f) > 1 {
					rows[f[0].text] = f[1].text
				}
			}
			if d.Top == "hosts" {
				for i, hp := range listed2(hps, d.Hosts) {
					w := "Success"
					if d.Hosts[i].Kind != "ok" {
						w = "Failure: "
					}
					if !strings.HasPrefix(rows[hp], w) {
						return fmt.Errorf("host %s, %s, want %s:\n%s", hp, rows[hp], w, strings.Join(s.lines(), "\n"))
					}
				}
				return nil
			}
			for k, n := range want {
				if rows[k] != fmt.Sprint(n) {
					return fmt.Errorf("job %s, %q, want %d:\n%s", k, rows[k], n, strings.Join(s.lines(), "\n"))
				}
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("healthtop %s: %w", d.Top, err)
		}
	}
	if s := p.stderr.String(); strings.Contains(s, "DATA RACE") {
		return fmt.Errorf("healthd: %.3000s", s)
	}
	return nil
}

// listed2 are the addresses of the hosts.
func listed2(hps []string, ms []Monitored) (out []string) {
	i := 0
	for _, m := range ms {
		out = append(out, hps[i])
		if i++; m.Again {
			i++
		}
	}
	return
}

// Stop is a life of a healthd in this process, on real sockets, that ends.
type Stop struct {
	Taken  bool   `json:"taken,omitempty"` // its port is in use
	Delay  int    `json:"delay"`           // ms until it is stopped
	Hosts  []bool `json:"hosts"`           // whether a host accepts connections (and then never answers)
	Gets   int    `json:"gets"`            // API requests right before the stop, and while it stops
	Keep   bool   `json:"keep,omitempty"`  // connections stay open
	During bool   `json:"during,omitempty"`
}

func runStop(c Stop) error {
	addr := freeIP() + ":5031"
	if c.Taken {
		l, err := listen(addr)
		if err != nil {
			return err
		}
		defer l.Close()
	}
	var hosts []string
	for _, open := range c.Hosts {
		hp := freeIP() + ":5020"
		hosts = append(hosts, hp)
		if open {
			l, err := listen(hp)
			if err != nil {
				return err
			}
			defer l.Close()
		}
	}
	hd := healthd.StartNewHealthD(hosts, addr, health.NewStream())
	time.Sleep(time.Duration(c.Delay) * time.Millisecond)
	client := http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: !c.Keep}}
	defer client.CloseIdleConnections()
	var wg sync.WaitGroup
	errs := make([]error, c.Gets)
	if !c.Taken {
		if err := within(patience, nil, func() error {
			conn, err := net.Dial("tcp", addr)
			if err == nil {
				conn.Close()
			}
			return err
		}); err != nil {
			return fmt.Errorf("the API is not served: %v", err)
		}
		for i := 0; i < c.Gets; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				resp, err := client.Get("http://" + addr + "/healthd/" + []string{"jobs", "hosts", "aggregations", "aggregations/overall"}[i%4])
				if err != nil {
					errs[i] = err
					return
				}
				defer resp.Body.Close()
				b, err := io.ReadAll(resp.Body)
				if err == nil && (resp.StatusCode != 200 || !json.Valid(b)) {
					err = fmt.Errorf("status %d: %.100s", resp.StatusCode, b)
				}
				errs[i] = err
			}()
		}
		if !c.During {
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return fmt.Errorf("an API request: %v", err)
				}
			}
		}
	}
	done := make(chan struct{})
	go func() { hd.Stop(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		return fmt.Errorf("Stop has not returned within 20 s")
	}
	ended := make(chan struct{})
	go func() { wg.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(20 * time.Second):
		return fmt.Errorf("an API request made when healthd stopped was neither answered nor refused within 20 s")
	}
	if !c.Taken {
		// (the port is given up)
		return within(10*time.Second, nil, func() error {
			l, err := net.Listen("tcp", addr)
			if err == nil {
				l.Close()
			}
			return err
		})
	}
	return nil
}
