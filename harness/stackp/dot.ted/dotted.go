// Package dotted has a dot in the last element of its path, which the runtime escapes.
package dotted

// T is a type with methods.
type T struct{ F func() }

// Call calls f.
func Call(f func()) { f() }

// Closure calls f from a closure.
func Closure(f func()) {
	func() {
		func() { f() }()
	}()
}

// Gen calls f from a generic function.
//
//go:noinline
func Gen[A any](_ A, f func()) { f() }

// Val calls f.
func (t T) Val() { t.F() }

// Ptr calls f.
func (t *T) Ptr() { t.F() }
