// Package symb has functions that call back from packages of all sorts: their symbols are those of functions of other
// packages, as they would be in a program that has these.
package symb

import _ "unsafe"

// N is how many ways there are to call.
const N = 10

// Call calls f from a function of a package.
func Call(n int, f func()) {
	switch n % N {
	case 0:
		viaMain(f)
	case 1:
		viaMainMethod(f)
	case 2:
		viaMainClosure(f)
	case 3:
		viaVendor(f)
	case 4:
		viaDotted(f)
	case 5:
		viaHealth(f)
	case 6:
		viaFlat(f)
	case 7:
		viaSystemLike(f)
	case 8:
		viaDeep(f)
	case 9:
		viaInlined(f)
	}
}

//go:noinline
//go:linkname viaMain main.symbRun
func viaMain(f func()) {
	f()
}

//go:noinline
//go:linkname viaMainMethod main.(*symbT).Run
func viaMainMethod(f func()) {
	f()
}

//go:linkname viaMainClosure main.symbOuter
func viaMainClosure(f func()) {
	func() {
		defer func() { f() }()
	}()
}

//go:noinline
//go:linkname viaVendor example.com/symb/vendor/golang.org/x/net.Run
func viaVendor(f func()) {
	f()
}

//go:noinline
//go:linkname viaDotted gopkg.in/symb%2ev2.(*Decoder).Run
func viaDotted(f func()) {
	f()
}

//go:noinline
//go:linkname viaHealth github.com/gocraft/health/symb.Run
func viaHealth(f func()) {
	f()
}

//go:noinline
//go:linkname viaFlat symbflat.Run.func1.2
func viaFlat(f func()) {
	f()
}

//go:noinline
//go:linkname viaSystemLike net/symb.T.Run
func viaSystemLike(f func()) {
	f()
}

//go:noinline
//go:linkname viaDeep a.example/b-c/~d/e_f/g.init.0
func viaDeep(f func()) {
	f()
}

//go:linkname viaInlined main.symbInlined
func viaInlined(f func()) { f() }
