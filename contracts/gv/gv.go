// Package gv is the contract language of the gover verifier.
//
// A contract is an ordinary Go function verif_<ID>_<name>(params...) that calls
// the code under contract and states what must hold with the functions below.
// gover reads it symbolically: parameters are arbitrary values, Requires adds a
// precondition and every Ensures is a proof obligation. The same function also
// runs natively on concrete inputs, which is how failed obligations are replayed.
package gv

import (
	"maps"
	"reflect"
	"slices"
	"unsafe"
)

type skip struct{ why string }

// Failure is a postcondition that did not hold on a concrete run.
type Failure struct {
	Label  string
	Detail string
}

type runState struct {
	failures []Failure
	noPanic  bool
	ensured  int
	onExit   func(code int)
	rand     *Rand
}

var cur = &runState{}

// Requires states a precondition.
func Requires(c bool) {
	if !c {
		panic(skip{"requires"})
	}
}

// Assume states an assumption that is not checked; it is listed in the evidence.
func Assume(reason string, c bool) {
	if !c {
		panic(skip{reason})
	}
}

// Cover states that c must be reachable (guards against vacuous contracts).
func Cover(label string, c bool) {}

// Ensures states an obligation.
func Ensures(label string, c bool) {
	cur.ensured++
	if !c {
		cur.failures = append(cur.failures, Failure{Label: label})
		panic(skip{"failed"})
	}
}

// All states f for every index in [lo, hi).
func All(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Any states f for some index in [lo, hi).
func Any(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// AllKeys states f for every key of m.
func AllKeys[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

// AnyKey states f for some key of m.
func AnyKey[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if f(k) {
			return true
		}
	}
	return false
}

// AllOf states f for every value of its parameter type (natively: sampled).
func AllOf[T any](f func(v T) bool) bool {
	if cur.rand == nil {
		return true
	}
	for i := 0; i < 40; i++ {
		var v T
		cur.rand.fill(reflect.ValueOf(&v).Elem(), 3)
		if !f(v) {
			return false
		}
	}
	return true
}

// Inv offers a loop-invariant template: func(it int, values...) bool. Parameters
// are matched by type with the values a loop carries; instances that are not
// inductive are discarded, so a template can never make a wrong proof pass.
func Inv(f any) {}

// Snap is a ghost copy of a slice's contents.
func Snap[T any](s []T) []T { return slices.Clone(s) }

// SnapMap is a ghost copy of a map's contents.
func SnapMap[K comparable, V any](m map[K]V) map[K]V { return maps.Clone(m) }

// Mark fixes the state that Old refers to.
func Mark() {}

// Old is the value f has in the marked state; local variables keep their current values.
func Old[T any](f func() T) T { return f() }

// NoPanic turns every possible run-time panic of the code under contract into an obligation.
func NoPanic() { cur.noPanic = true }

// MayPanic ends a NoPanic region.
func MayPanic() { cur.noPanic = false }

// ExactInts makes int and int64 arithmetic exact 64-bit arithmetic.
func ExactInts() {}

// Strings switches the contract's queries to the solver's theory of strings.
func Strings() {}

// Globals gives the solver the initial contents of package variables that the contract's
// functions never change.
func Globals() {}

// Opaque treats f as an uninterpreted, effect-free function.
func Opaque(f any) {}

// UseContract replaces calls of f by the contract h (a function that calls f once).
func UseContract(f, h any) {}

// OnExit is evaluated with the status at every os.Exit the code under contract reaches.
func OnExit(f func(code int)) { cur.onExit = f }

// Frame states that since Mark only what Modifies lists, and new objects, changed.
func Frame() {}

// Modifies lists what the function under contract may change (used at call sites).
func Modifies(p any) {}

// Implies is logical implication (both sides are evaluated).
func Implies(a, b bool) bool { return !a || b }

// Fresh states that a slice, map or pointer is nil or was allocated since Mark (natively always true).
func Fresh[T any](v T) bool { return true }

// Same states that two slices are the same window of the same array.
func Same[T any](a, b []T) bool {
	return len(a) == len(b) && unsafe.SliceData(a) == unsafe.SliceData(b)
}

// SameArray states that two slices are windows of the same array.
func SameArray[T any](a, b []T) bool {
	return cap(a) == 0 || cap(b) == 0 || unsafe.SliceData(a[:1]) == unsafe.SliceData(b[:1])
}

// Arbitrary is an arbitrary value of type T.
func Arbitrary[T any]() T {
	var v T
	if cur.rand != nil {
		cur.rand.fill(reflect.ValueOf(&v).Elem(), 4)
	}
	return v
}

// Exit stands for os.Exit in native runs.
func Exit(code int) {
	if cur.onExit != nil {
		f := cur.onExit
		f(code)
	}
	panic(skip{"exit"})
}

// Native tells a native run from the symbolic reading (always false there).
func Native() bool { return true }

// Stub makes calls of f run g in the symbolic reading: a ghost model of f that
// records its arguments. Natively f itself runs.
func Stub(f, g any) {}
