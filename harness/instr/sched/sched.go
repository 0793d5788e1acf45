// Package verifsched is a controlled scheduler. Instrumented code calls P
// before every statement; goroutines that belong to a task of an Exec stop
// there until it is their task's turn.
package verifsched

import (
	"context"
	"runtime/pprof"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

var active int32
var tasks sync.Map // label pointer -> *task

type task struct {
	e    *Exec
	id   int
	ptr  unsafe.Pointer
	n    int64 // points passed
	done bool
}

// Exec is one controlled execution.
type Exec struct {
	mu    sync.Mutex
	cond  *sync.Cond
	tasks []*task
	turn  int
	// plan says after how many points of the task whose turn it is the turn
	// goes to the next one; then it goes on with the rest of the plan.
	plan   []int64
	left   int64 // of the current step of the plan; < 0: no limit
	ticks  int64
	Stalls int // how often the turn was taken from a task that didn't move
	Over   bool
}

// P is a scheduling point.
func P() {
	if atomic.LoadInt32(&active) == 0 {
		return
	}
	v, ok := tasks.Load(getLabel())
	if !ok {
		return
	}
	t := v.(*task)
	e := t.e
	e.mu.Lock()
	for e.turn != t.id && !e.Over {
		e.cond.Wait()
	}
	t.n++
	e.ticks++
	if e.left > 0 {
		if e.left--; e.left == 0 {
			e.next()
			for e.turn != t.id && !e.Over {
				e.cond.Wait()
			}
		}
	}
	e.mu.Unlock()
}

// next gives the turn to the next task that isn't done.
func (e *Exec) next() {
	for i := 1; i <= len(e.tasks); i++ {
		if t := e.tasks[(e.turn+i)%len(e.tasks)]; !t.done {
			e.turn = t.id
			break
		}
	}
	e.left = -1
	if len(e.plan) > 0 {
		e.left = e.plan[0]
		e.plan = e.plan[1:]
	}
	e.cond.Broadcast()
}

// Run runs fns under a plan: the first task for plan[0] points, the next one
// for plan[1] points, and so on, then each to its end. It returns how many
// points each task passed.
func Run(plan []int64, fns ...func()) ([]int64, int) {
	e := &Exec{plan: plan, left: -1}
	e.cond = sync.NewCond(&e.mu)
	if len(plan) > 0 {
		e.left = plan[0]
		e.plan = plan[1:]
	}
	atomic.AddInt32(&active, 1)
	defer atomic.AddInt32(&active, -1)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, f := range fns {
		t := &task{e: e, id: i}
		e.tasks = append(e.tasks, t)
		wg.Add(1)
		ready := make(chan struct{})
		f := f
		go func() {
			defer wg.Done()
			pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("t", string(rune('a'+i)))))
			t.ptr = getLabel()
			tasks.Store(t.ptr, t)
			close(ready)
			<-start
			defer func() {
				e.mu.Lock()
				t.done = true
				if e.turn == t.id {
					e.next()
				}
				e.mu.Unlock()
			}()
			P()
			f()
		}()
		<-ready
	}
	close(start)
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	last := int64(-1)
	tick := time.NewTicker(20 * time.Millisecond)
	for waiting := true; waiting; {
		select {
		case <-fin:
			waiting = false
		case <-tick.C:
			// The task may wait for something that another one has.
			e.mu.Lock()
			if e.ticks == last {
				e.Stalls++
				e.next()
			}
			last = e.ticks
			e.mu.Unlock()
		}
	}
	tick.Stop()
	e.mu.Lock()
	e.Over = true // goroutines that are left over run freely
	e.cond.Broadcast()
	var n []int64
	for _, t := range e.tasks {
		n = append(n, t.n)
		tasks.Delete(t.ptr)
	}
	stalls := e.Stalls
	e.mu.Unlock()
	return n, stalls
}
