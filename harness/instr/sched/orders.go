package verifsched

import (
	"context"
	"fmt"
	"iter"
	"runtime/pprof"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"
)

// Iteration orders of maps as choices.

var ordering int32
var orderRuns sync.Map // label pointer -> *orderRun

type orderRun struct {
	mu      sync.Mutex
	choices []int
	sizes   []int
}

// WithOrders runs f; the i'th range over a map in it uses order choices[i] (or
// 0). It returns how many orders each range had.
func WithOrders(choices []int, f func()) []int {
	r := &orderRun{choices: choices}
	atomic.AddInt32(&ordering, 1)
	defer atomic.AddInt32(&ordering, -1)
	done := make(chan struct{})
	go func() {
		defer close(done)
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("o", "o")))
		var ptr unsafe.Pointer = getLabel()
		orderRuns.Store(ptr, r)
		defer orderRuns.Delete(ptr)
		f()
	}()
	<-done
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.sizes
}

func (r *orderRun) choose(n int) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	i := len(r.sizes)
	r.sizes = append(r.sizes, n)
	if i < len(r.choices) && r.choices[i] < n {
		return r.choices[i]
	}
	return 0
}

// ordersOf is the number of orders of n keys that are tried: all of them, or
// for many keys the sorted order, its reverse and a few rotations.
func ordersOf(n int) int {
	switch {
	case n < 2:
		return 1
	case n == 2:
		return 2
	case n == 3:
		return 6
	case n == 4:
		return 24
	}
	return 4
}

func permute(n, c int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	if n > 4 {
		switch c {
		case 1:
			for i := range out {
				out[i] = n - 1 - i
			}
		case 2:
			for i := range out {
				out[i] = (i + n/2) % n
			}
		case 3:
			for i := range out {
				out[i] = (n + n/3 - i) % n
			}
		}
		return out
	}
	// the c'th permutation
	rest := out
	var p []int
	for k := n; k > 0; k-- {
		f := 1
		for i := 2; i < k; i++ {
			f *= i
		}
		j := c / f
		c %= f
		p = append(p, rest[j])
		rest = append(append([]int{}, rest[:j]...), rest[j+1:]...)
	}
	return p
}

func keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if atomic.LoadInt32(&ordering) == 0 {
		return ks
	}
	v, ok := orderRuns.Load(getLabel())
	if !ok {
		return ks
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	c := v.(*orderRun).choose(ordersOf(len(ks)))
	out := make([]K, len(ks))
	for i, j := range permute(len(ks), c) {
		out[i] = ks[j]
	}
	return out
}

// Seq2 ranges over m in an order of choice.
func Seq2[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range keys(m) {
			if v, ok := m[k]; ok && !yield(k, v) {
				return
			}
		}
	}
}

// Seq1 ranges over the keys of m in an order of choice.
func Seq1[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range keys(m) {
			if _, ok := m[k]; ok && !yield(k) {
				return
			}
		}
	}
}
