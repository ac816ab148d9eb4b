// Package e2e runs the commands: healthtop on a pseudo-terminal, and the healthd daemon, as processes of their own that
// talk over the loopback network.
package e2e

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unsafe"
)

func ioctl(f *os.File, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

// openPty opens a pseudo-terminal of that size.
func openPty(rows, cols int) (master, slave *os.File, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	master = os.NewFile(uintptr(fd), "/dev/ptmx")
	var n uint32
	var zero int32
	if err := ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		master.Close()
		return nil, nil, err
	}
	if err := ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err != nil {
		master.Close()
		return nil, nil, err
	}
	slave, err = os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	ws := [4]uint16{uint16(rows), uint16(cols), 0, 0}
	if err := ioctl(slave, syscall.TIOCSWINSZ, unsafe.Pointer(&ws)); err != nil {
		master.Close()
		slave.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

// cell is a character on the screen.
type cell struct {
	r    rune
	fg   int
	bold bool
}

// screen is what a terminal shows.
type screen struct {
	rows, cols int
	cells      [][]cell
	r, c       int
	fg         int
	bold       bool
	bad        string // an unknown control sequence
}

func newScreen(rows, cols int) *screen {
	return &screen{rows: rows, cols: cols, cells: make([][]cell, rows)}
}

func (s *screen) clone() *screen {
	c := *s
	c.cells = make([][]cell, s.rows)
	for i := range s.cells {
		c.cells[i] = append([]cell(nil), s.cells[i]...)
	}
	return &c
}

func (s *screen) down() {
	if s.r++; s.r >= s.rows {
		s.cells = append(s.cells[1:], nil)
		s.r = s.rows - 1
	}
}

func (s *screen) put(r rune) {
	switch r {
	case '\r':
		s.c = 0
	case '\n':
		s.down()
	default:
		if r < ' ' {
			s.bad = fmt.Sprintf("control character %q", r)
			return
		}
		if s.c >= s.cols {
			s.c = 0
			s.down()
		}
		for len(s.cells[s.r]) <= s.c {
			s.cells[s.r] = append(s.cells[s.r], cell{r: ' '})
		}
		s.cells[s.r][s.c] = cell{r, s.fg, s.bold}
		s.c++
	}
}

func (s *screen) seq(params string, final byte) {
	var ns []int
	for _, p := range strings.Split(params, ";") {
		n, _ := strconv.Atoi(p)
		ns = append(ns, n)
	}
	switch final {
	case 'J':
		if ns[0] != 2 {
			s.bad = "ESC[" + params + "J"
		}
		s.cells = make([][]cell, s.rows)
	case 'K':
		if s.c < len(s.cells[s.r]) {
			s.cells[s.r] = s.cells[s.r][:s.c]
		}
	case 'H':
		at := func(i, n int) int {
			if i < len(ns) && ns[i] > 1 {
				return min(ns[i], n) - 1
			}
			return 0
		}
		s.r, s.c = at(0, s.rows), at(1, s.cols)
	case 'm':
		for _, n := range ns {
			switch {
			case n == 0:
				s.fg, s.bold = 0, false
			case n == 1:
				s.bold = true
			case n >= 30 && n <= 37:
				s.fg = n
			case n == 39:
				s.fg = 0
			}
		}
	default:
		s.bad = "ESC[" + params + string(final)
	}
}

// lines are the lines of the screen, without trailing spaces.
func (s *screen) lines() []string {
	var out []string
	for _, l := range s.cells {
		var b strings.Builder
		for _, c := range l {
			b.WriteRune(c.r)
		}
		out = append(out, strings.TrimRight(b.String(), " "))
	}
	return out
}

// field is a column of a line: text between runs of at least three spaces.
type field struct {
	text string
	fg   int
	bold bool
}

func (s *screen) fields(row int) []field {
	var out []field
	l := s.cells[row]
	for i := 0; i < len(l); {
		if l[i].r == ' ' {
			i++
			continue
		}
		f := field{fg: l[i].fg, bold: l[i].bold}
		var b strings.Builder
		for i < len(l) {
			k := i
			for k < len(l) && l[k].r == ' ' {
				k++
			}
			if k-i >= 3 || k == len(l) {
				break
			}
			b.WriteRune(l[i].r)
			if l[i].r != ' ' && l[i].fg != f.fg {
				f.fg = -1
			}
			i++
		}
		f.text = b.String()
		out = append(out, f)
	}
	return out
}

// terminal feeds what a process writes into a screen.
type terminal struct {
	mu     sync.Mutex
	s      *screen
	frames []*screen // what was shown whenever the screen was about to be cleared
	count  int       // how often it was cleared
	esc    []byte
	utf    []byte
	wrote  bool
}

func (t *terminal) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, b := range p {
		switch {
		case len(t.esc) == 1 && b != '[':
			t.s.bad = fmt.Sprintf("ESC %q", b)
			t.esc = nil
		case len(t.esc) > 0:
			t.esc = append(t.esc, b)
			if len(t.esc) > 2 && b >= 0x40 && b <= 0x7e {
				seq := string(t.esc)
				t.esc = nil
				if seq[len(seq)-1] == 'J' {
					if t.count > 0 {
						t.frames = append(t.frames, t.s.clone())
					}
					t.count++
				}
				t.s.seq(seq[2:len(seq)-1], seq[len(seq)-1])
			}
		case b == 0x1b:
			t.esc = []byte{b}
		case b < 0x80:
			t.s.put(rune(b))
		default:
			t.utf = append(t.utf, b)
			if r := []rune(string(t.utf)); len(r) == 1 && r[0] != 0xfffd {
				t.s.put(r[0])
				t.utf = nil
			} else if len(t.utf) >= 4 {
				t.s.put(0xfffd)
				t.utf = nil
			}
		}
	}
	return len(p), nil
}

// now is what the screen shows, and how often it was cleared before.
func (t *terminal) now() (*screen, int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.s.clone(), t.count
}

// take are the full frames since the last call.
func (t *terminal) take() []*screen {
	t.mu.Lock()
	defer t.mu.Unlock()
	f := t.frames
	t.frames = nil
	return f
}
