package core

import "fmt"

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// MapIt iterates a map in an order chosen by the simulator.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	return &MapIt[K, V]{m, MapKeys(m)}
}

func MapIter3[M ~map[K]V, K comparable, V any](m M) (it *MapIt[K, V], k K, v V) {
	return MapIter(m), k, v
}

func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// ChanIt iterates a channel.
type ChanIt[T any] struct{ ch <-chan T }

func ChanIter[T any](ch <-chan T) *ChanIt[T]            { return &ChanIt[T]{ch} }
func ChanIter2[T any](ch <-chan T) (it *ChanIt[T], v T) { return &ChanIt[T]{ch}, v }
func (it *ChanIt[T]) Next(p *T) bool {
	v, ok := Recv2(it.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// Print and Println stand in for the builtins, which write to standard error.
func Print(a ...any) {
	if !Dead() {
		cur.proc.Fds[2].Write([]byte(fmt.Sprint(a...)))
	}
}
func Println(a ...any) {
	if !Dead() {
		cur.proc.Fds[2].Write([]byte(fmt.Sprintln(a...)))
	}
}
