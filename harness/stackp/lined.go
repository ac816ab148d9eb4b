package stackp

func lined(c *chain) {
	switch c.i % 4 {
	case 0:
		linedNext(c)
	case 1:
		linedIn(c)
	case 2:
		linedOther(c)
	default:
		linedShort(c)
	}
}

// These pretend to be in files next to, and in, the Go installation.

//line /opt/veriftools/go1.27.3-local/src/a.go:10
func linedNext(c *chain) { c.next() }

//line /opt/veriftools/go1.27.3/src/fake/b.go:20
//go:noinline
func linedIn(c *chain) { c.next() }

//line /srv/app with space/c:d.go:30
func linedOther(c *chain) { c.next() }

//line /opt/veriftools/go1.27.go:7
func linedShort(c *chain) { c.next() }
