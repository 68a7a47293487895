// Package simatomic is sync/atomic (real operations; a switch may happen
// before each at the instrumented statement).
package simatomic

import "sync/atomic"

type Pointer[T any] struct{ atomic.Pointer[T] }
