// Package simmaps is package maps with an order of iteration chosen by the
// simulator.
package simmaps

import (
	"iter"

	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range simrt.MapKeys(m) {
			if _, ok := m[k]; ok && !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range simrt.MapKeys(m) {
			if v, ok := m[k]; ok && !yield(v) {
				return
			}
		}
	}
}

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range simrt.MapKeys(m) {
			if v, ok := m[k]; ok && !yield(k, v) {
				return
			}
		}
	}
}

func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	seq(func(k K, v V) bool { m[k] = v; return true })
}

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V {
	m := map[K]V{}
	Insert(m, seq)
	return m
}

func Clone[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	r := make(M, len(m))
	Copy(r, m)
	return r
}

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	for k, v := range src {
		dst[k] = v
	}
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for _, k := range simrt.MapKeys(m) {
		if v, ok := m[k]; ok && del(k, v) {
			delete(m, k)
		}
	}
}

func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool {
	return EqualFunc(a, b, func(x, y V) bool { return x == y })
}

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		if y, ok := b[k]; !ok || !eq(x, y) {
			return false
		}
	}
	return true
}
