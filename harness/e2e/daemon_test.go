package e2e

import (
	"sync"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/core"
)

// Daemons run at the same time.
type Daemons struct {
	Daemons []Daemon `json:"daemons"`
}

func together[T any](cs []T, f func(T) error) error {
	errs := make([]error, len(cs))
	var wg sync.WaitGroup
	for i := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = f(cs[i])
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func TestC29_daemon(t *testing.T) {
	core.Check(t, core.Sub[Daemons]{
		Gen: func(t *rapid.T) (c Daemons) {
			for n := 1 + core.Uniform(t, "daemons", 5); n > 0; n-- {
				d := Daemon{None: core.Chance(t, "none", 1, 10), Self: core.Chance(t, "self", 1, 3), Top: core.Pick(t, "top", "", "jobs", "hosts")}
				for k := 1 + core.Uniform(t, "hosts", 4); k > 0; k-- {
					m := Monitored{Jobs: map[string]int{}, Ago: core.Uniform(t, "ago", 3), Kind: core.Pick(t, "kind", "ok", "ok", "ok", "garbage", "down"), Again: core.Chance(t, "again", 1, 8)}
					for j := core.Uniform(t, "jobs", 5); j > 0; j-- {
						m.Jobs[core.Pick(t, "job", "a", "b", "web", "jobs/x", "/api/users", "é")] = 1 + core.Uniform(t, "count", 1000)
					}
					d.Hosts = append(d.Hosts, m)
				}
				c.Daemons = append(c.Daemons, d)
			}
			return
		},
		Run: func(c Daemons) error { return together(c.Daemons, runDaemon) },
		Classify: func(c Daemons) (bool, []string) {
			n := 0
			for _, d := range c.Daemons {
				for _, h := range d.Hosts {
					n += len(h.Jobs)
				}
			}
			return n > 0, nil
		},
	})
}

// Stops happen at the same time.
type Stops struct {
	Stops []Stop `json:"stops"`
}

func TestC30_sockets(t *testing.T) {
	core.Check(t, core.Sub[Stops]{
		Gen: func(t *rapid.T) (c Stops) {
			for n := 1 + core.Uniform(t, "stops", 8); n > 0; n-- {
				s := Stop{Taken: core.Chance(t, "taken", 1, 4), Delay: core.Pick(t, "delay", 0, 0, 1, 10, 100, 500, 3000), Gets: core.Uniform(t, "gets", 20), Keep: core.Chance(t, "keep", 1, 2), During: core.Chance(t, "during", 1, 2)}
				for k := core.Uniform(t, "hosts", 4); k > 0; k-- {
					s.Hosts = append(s.Hosts, core.Chance(t, "open", 1, 2))
				}
				c.Stops = append(c.Stops, s)
			}
			return
		},
		Run: func(c Stops) error { return together(c.Stops, runStop) },
		Classify: func(c Stops) (bool, []string) {
			var l []string
			for _, s := range c.Stops {
				if s.Taken {
					l = append(l, "port-taken")
				}
				if s.Gets > 0 && s.During {
					l = append(l, "requests")
				}
			}
			return true, l
		},
	})
}
