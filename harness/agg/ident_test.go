package agg

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net/http/httptest"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gocraft/health"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// A process that has this in its environment reports its instance ids instead of running tests.
const identEnv = "VERIF_IDENT"

func init() {
	if os.Getenv(identEnv) == "" {
		return
	}
	ids := map[string]bool{}
	for i := 0; i < 4; i++ {
		s := health.NewJsonPollingSink(time.Minute*time.Duration(i+1), time.Hour)
		s.EmitEvent("j", "e", nil)
		for k := 0; k < 2; k++ {
			rw := httptest.NewRecorder()
			s.ServeHTTP(rw, httptest.NewRequest("GET", "/health", nil))
			var doc struct {
				ID *string `json:"instance_id"`
			}
			if json.Unmarshal(rw.Body.Bytes(), &doc) != nil || doc.ID == nil {
				ids["no id"] = true
			} else {
				ids["id "+*doc.ID] = true
			}
		}
	}
	var l []string
	for id := range ids {
		l = append(l, id)
	}
	b, _ := json.Marshal(l)
	fmt.Printf("ids:%s\n", b)
	io.Copy(io.Discard, os.Stdin) // until the others have answered as well
	os.Exit(0)
}

// IdentCase is a set of processes that run at the same time: for each one "" or the name of a machine of its own (as in a
// container, where it has process id 1).
type IdentCase struct {
	Machines []string `json:"machines"`
}

var canUnshare = sync.OnceValue(func() bool {
	out, err := exec.Command("unshare", "-Urpf", "--uts", "sh", "-c", "hostname verif-x && echo $$ && hostname").Output()
	return err == nil && string(out) == "1\nverif-x\n"
})

func (c IdentCase) run() error {
	exe, err := os.Executable()
	if err != nil {
		return core.Inconclusive("%v", err)
	}
	type proc struct {
		cmd  *exec.Cmd
		in   io.Closer
		line chan string
	}
	var ps []*proc
	defer func() {
		for _, p := range ps {
			p.in.Close()
			p.cmd.Wait()
		}
	}()
	names := map[string]bool{}
	for _, m := range c.Machines {
		if m != "" && (!canUnshare() || names[m]) {
			m = ""
		}
		names[m] = true
		cmd := exec.Command(exe)
		if m != "" {
			cmd = exec.Command("unshare", "-Urpf", "--uts", "sh", "-c", `hostname "$0" && exec "$1"`, m, exe)
		}
		cmd.Env = append(os.Environ(), identEnv+"=1")
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			return core.Inconclusive("%v", err)
		}
		p := &proc{cmd, in, make(chan string, 1)}
		ps = append(ps, p)
		go func() {
			defer close(p.line)
			for sc := bufio.NewScanner(out); sc.Scan(); {
				if l, ok := strings.CutPrefix(sc.Text(), "ids:"); ok {
					p.line <- l
					return
				}
			}
		}()
	}
	seen := map[string]int{}
	for i, p := range ps {
		var l string
		select {
		case l = <-p.line:
		case <-time.After(30 * time.Second):
		}
		var ids []string
		if json.Unmarshal([]byte(l), &ids) != nil {
			return core.Inconclusive("process %d hasn't answered", i)
		}
		if len(ids) != 1 || !strings.HasPrefix(ids[0], "id ") || ids[0] == "id " {
			return fmt.Errorf("process %d serves the instance ids %q", i, ids)
		}
		if k, ok := seen[ids[0]]; ok {
			return fmt.Errorf("processes %d and %d (on machines %q and %q) have the same instance id: %q", k, i, c.Machines[k], c.Machines[i], ids[0])
		}
		seen[ids[0]] = i
	}
	return nil
}

func TestC11_identity(t *testing.T) {
	core.Check(t, core.Sub[IdentCase]{
		Gen: func(t *rapid.T) (c IdentCase) {
			for n := 2 + core.Uniform(t, "n", 6); n > 0; n-- {
				c.Machines = append(c.Machines, core.Pick(t, "machine", "", "", "a", "b", "web-1", "web-2", "web-1.example.com", "localhost"))
			}
			return
		},
		Run: IdentCase.run,
		Classify: func(c IdentCase) (bool, []string) {
			own := 0
			for _, m := range c.Machines {
				if m != "" {
					own++
				}
			}
			var l []string
			if own > 1 && canUnshare() {
				l = append(l, "machines")
			}
			return len(c.Machines) > 1, l
		},
	})
}
