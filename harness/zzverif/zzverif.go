// Package zzverif holds the primitives the analysis scenarios are written
// with. It is laid over the repository while it is loaded and is never
// compiled into anything: the analyser gives each function its meaning.
package zzverif

// Any is an unknown value.
func Any[T any](name string) T { panic("analysis only") }

// NonNil is an unknown value that is not nil.
func NonNil[T any](name string) T { panic("analysis only") }

// Bool is an unknown boolean.
func Bool() bool { panic("analysis only") }

// Int is an unknown integer within bounds.
func Int(lo, hi int) int { panic("analysis only") }

// Choice is each of 0..n-1, one abstract state each.
func Choice(n int) int { panic("analysis only") }

// Bytes is an unknown non-nil byte slice of any length.
func Bytes(name string) []byte { panic("analysis only") }

// BytesN is an unknown byte slice of a given length.
func BytesN(name string, n int) []byte { panic("analysis only") }

// Str is an unknown string of any length.
func Str(name string) string { panic("analysis only") }

// Assume restricts the executions considered.
func Assume(bool) { panic("analysis only") }

// Assert is an obligation.
func Assert(ok bool, msg string) { panic("analysis only") }

// Fail is an obligation never to get here.
func Fail(msg string) { panic("analysis only") }

// Same is deep equality.
func Same(a, b any) bool { panic("analysis only") }

// Reach marks a point some execution must reach.
func Reach(name string) { panic("analysis only") }

// RunSpawned runs the goroutines started so far, one after another.
func RunSpawned() { panic("analysis only") }

// RunAny runs the goroutines started so far, in any order.
func RunAny() { panic("analysis only") }

// DropSpawned forgets the goroutines started so far.
func DropSpawned() { panic("analysis only") }

// Spawned counts the goroutines started and not run.
func Spawned() int { panic("analysis only") }

// Held reports whether a mutex is held.
func Held() bool { panic("analysis only") }

// AllocBound makes every allocation of more than n elements a violation.
func AllocBound(n int) { panic("analysis only") }

// Blocks runs f and reports whether it waits forever.
func Blocks(f func()) bool { panic("analysis only") }

// Panics runs f and reports whether it panics.
func Panics(f func()) bool { panic("analysis only") }

// Show prints a value while debugging.
func Show(name string, v any) { panic("analysis only") }

// SameBacking reports whether two slices share memory.
func SameBacking(a, b []byte) bool { panic("analysis only") }

// Unlocks counts the mutexes released so far.
func Unlocks() int { panic("analysis only") }
