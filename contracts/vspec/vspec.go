// Package vspec is the specification vocabulary of the contracts in /verif/contracts. It is overlaid into the
// module when the contracts are verified or replayed; it is not part of the repository.
//
// For the verifier (govc) every function here is an intrinsic. At run time (replay of a failed obligation) the
// same functions evaluate on the concrete values.
package vspec

import "fmt"

type skip struct{}

var failures []string

// Symbolic reports whether the contract is being verified (true) or executed (false).
func Symbolic() bool { return false }

// Requires states a precondition.
func Requires(c bool) {
	if !c {
		panic(skip{})
	}
}

// Ensures states a postcondition of the property.
func Ensures(prop, label string, c bool) {
	if !c {
		failures = append(failures, prop+" "+label)
	}
}

// Assume states an assumption about the environment; it is listed in the evidence.
func Assume(why string, c bool) {
	if !c {
		panic(skip{})
	}
}

// Forall holds when f(i) holds for every lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists holds when f(i) holds for some lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// All holds when f holds for every value of the type; at run time for every value of dom.
func All[K any](dom []K, f func(k K) bool) bool {
	for _, k := range dom {
		if !f(k) {
			return false
		}
	}
	return true
}

// Some holds when f holds for some value of the type; at run time for some value of dom.
func Some[K any](dom []K, f func(k K) bool) bool {
	for _, k := range dom {
		if f(k) {
			return true
		}
	}
	return false
}

// CopyMap returns a copy of m (the value before the call under contract).
func CopyMap[K comparable, V any](m map[K]V) map[K]V {
	if m == nil {
		return nil
	}
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// CopySlice returns a copy of s.
func CopySlice[T any](s []T) []T {
	if s == nil {
		return nil
	}
	return append(make([]T, 0, len(s)), s...)
}

// Any is an arbitrary value of the type.
func Any[T any](name string) T {
	var z T
	return z
}

// Fn is an uninterpreted function of its arguments.
func Fn[T any](name string, args ...any) T {
	var z T
	return z
}

// Decode is the message of type T that the bytes encode, and whether they are an encoding of one.
func Decode[T any](b []byte) (*T, bool) { return new(T), false }

// Closed reports whether the channel is closed.
func Closed[T any](ch chan T) bool {
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

// Fresh reports whether the reference was allocated by the code under contract.
func Fresh(ref any) bool { return true }

// Same reports whether the values are identical (floating point values included).
func Same[T comparable](a, b T) bool { return a == b }

// Ident is the identity of a function value (or of what a reference refers to).
func Ident(f any) int { return 0 }

// SentN is the number of values sent on the channel so far.
func SentN[T any](ch chan T) int { return len(ch) }

// SentAt is the i-th value sent on the channel.
func SentAt[T any](ch chan T, i int) T {
	var z T
	return z
}

// Set is the set of keys already visited by a map-range loop (loop templates only).
type Set[K comparable] struct{ m map[K]bool }

// Has reports membership.
func (s Set[K]) Has(k K) bool { return s.m[k] }

// Run executes a contract; it returns the failed postconditions, whether a precondition was not met, and the
// value of a panic.
func Run(f func()) (fails []string, skipped bool, pan interface{}) {
	failures = nil
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skip); ok {
				skipped = true
				fails = nil
				return
			}
			pan = fmt.Sprint(r)
			fails = failures
		}
	}()
	f()
	return failures, false, nil
}

// RecvN is the number of values received from the channel so far.
func RecvN[T any](ch chan T) int { return 0 }

// Waiting tells whether the current blocking operation waits for the channel (only in await functions).
func Waiting(ch any) bool { return true }

// Held is the number of locks held by the executing goroutine.
func Held() int { return 0 }

// Locked is the state of a lock: 0 free, 1 held for reading, 2 held for writing, by the executing goroutine.
func Locked[T any](lock *T) int { return 0 }

// MayClose says that other goroutines may have closed the channel.
func MayClose(ch any) {}
