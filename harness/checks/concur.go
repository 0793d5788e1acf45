package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
	"verif/impl"
	"verif/mc"
)

func init() {
	add(&mc.Check{ID: "C08", Run: runC08, Unstable: true, Assumptions: []string{
		"statements are atomic in the enumerated schedules; accesses within them are judged by the race detector, on the serial executions of all ordered pairs of operations (any two accesses that goclj doesn't order are found in one of them)",
		"synchronization inside the standard library (pools in fmt) counts as goclj's own for the race detector",
		"the free runs under the race detector only supplement the enumerated schedules"}})
}

// schedRun runs tasks under a schedule; it is set if goclj is instrumented
// with scheduling points.
var schedRun func(plan []int64, fns ...func()) ([]int64, int)

// An op parses a text and perhaps prints it.
type op struct {
	src  string
	opts parse.ParseOpts
	cfg  int // index into sharedCfgs, or -1: don't print
}

func (o op) String() string {
	if o.cfg < 0 {
		return fmt.Sprintf("parse %q with options %d", o.src, o.opts)
	}
	return fmt.Sprintf("parse and print %q with settings %d", o.src, o.cfg)
}

// opResult is what an op gives.
type opResult struct {
	tree *parse.Tree
	err  error
	out  string
	perr error
}

// The settings' maps are shared by all operations that use them.
var sharedCfgs = []*impl.Cfg{
	{},
	{Transforms: impl.Mask(511), Indents: map[string]format.IndentStyle{"foo": format.IndentCond1, "a.b/bar": format.IndentLet, "let": format.IndentNormal}, ThreadFirst: map[string]format.ThreadFirstStyle{"-?>": format.ThreadFirstNormal, "->": format.ThreadFirstCondArrow}},
	{Transforms: map[format.Transform]bool{format.TransformSortImportRequire: false, format.TransformUseToRequire: true}, Indents: map[string]format.IndentStyle{"let": format.IndentCond0}},
	{Transforms: impl.AllOff, Indents: map[string]format.IndentStyle{}, ThreadFirst: map[string]format.ThreadFirstStyle{}, IndentChar: '\t'},
}

func copyCfgs() []*impl.Cfg {
	var out []*impl.Cfg
	for _, c := range sharedCfgs {
		cp := *c
		if c.Transforms != nil {
			cp.Transforms = map[format.Transform]bool{}
			for k, v := range c.Transforms {
				cp.Transforms[k] = v
			}
		}
		if c.Indents != nil {
			cp.Indents = map[string]format.IndentStyle{}
			for k, v := range c.Indents {
				cp.Indents[k] = v
			}
		}
		if c.ThreadFirst != nil {
			cp.ThreadFirst = map[string]format.ThreadFirstStyle{}
			for k, v := range c.ThreadFirst {
				cp.ThreadFirst[k] = v
			}
		}
		out = append(out, &cp)
	}
	return out
}

func (o op) run() (r opResult) {
	return o.runFrom(strings.NewReader(o.src))
}

// name is the name that the source is parsed under.
func (o op) name() string { return fmt.Sprintf("%x.clj", firstN(o.src, 4)) }

func (o op) runFrom(in io.Reader) (r opResult) {
	r.tree, r.err = impl.ParseFrom(in, o.name(), o.opts)
	if r.err == nil && o.cfg >= 0 {
		r.out, r.perr = impl.Print(r.tree, sharedCfgs[o.cfg])
	}
	return
}

// dump describes a result completely.
func (r opResult) dump() string {
	if r.err != nil {
		return "error: " + r.err.Error()
	}
	var b strings.Builder
	var walk func(nodes []parse.Node, parent parse.Node, depth int)
	walk = func(nodes []parse.Node, parent parse.Node, depth int) {
		for _, n := range nodes {
			pos := "-"
			if p := n.Position(); p != nil {
				pos = fmt.Sprint(*p)
			}
			fmt.Fprintf(&b, "%d %s %s %s\n", depth, n, pos, nodeText(n))
			walk(n.Children(), n, depth+1)
		}
	}
	walk(r.tree.Roots, nil, 0)
	fmt.Fprintf(&b, "%q %v", r.out, r.perr)
	return b.String()
}

func nodeText(n parse.Node) string {
	rs, err := impl.Convert([]parse.Node{n})
	if err != nil {
		return err.Error()
	}
	return rs[0].Text
}

var opTexts = []string{
	"(a b)", "[1 \"s\nt\" ;c\n \\x]", "(let [a\n1] (-> x\n(case 1\n2)))", "#(a %) #?(:clj 1)\n\n\n{:a #_b 2}",
	"(ns n \"d\n  e\" (:use [u :only [v]]) (:require [c :as d] ;e\n b))\n(d/f v)", "(ns m (:require [a.b :as let]))\n(let/bar [x\ny] z)",
	"(defn f\n\"doc\n doc\"\n[x] (if a b\nc))", "(a (b", "\\u12 x", "(comment x) #_ #_ a b ^m c 'd", "(-?> a\n(foo\nb c))", "#{a é \"\\\"\"} #\"r\" ~@x ~ @y `z #'q #=(w) #t #:a{b c}",
	// The same name for namespaces with different contents.
	"(ns k (:require [a.b :as z :refer [bar]] [c]))\n(z/bar [x\ny]\nw)\n(bar [x]\nw)", "(ns k (:require [d :as y]))\n(z/bar [x\ny]\nw)\n(bar [x]\nw)",
	// Errors in the middle of a token.
	"x \"abc\nd", "(\\", "#\"r\\\"",
}

func ops() []op {
	var out []op
	for i, s := range opTexts {
		out = append(out, op{s, impl.Full, i % len(sharedCfgs)})
	}
	for _, i := range []int{4, 2, 6} {
		out = append(out, op{opTexts[i], impl.Full, 1}, op{opTexts[i], impl.Full, 0})
	}
	out[12].cfg, out[13].cfg = 1, 1
	for _, i := range []int{1, 7, 9, 11} {
		out = append(out, op{opTexts[i], 0, -1}, op{opTexts[i], parse.IgnoreCommentForm | parse.IgnoreReaderDiscard, -1})
	}
	return out
}

func runC08(r *mc.Run) {
	all := ops()
	alone := make([]string, len(all))
	want := copyCfgs()
	for i := range all {
		res, err := coldOps("", "alone", i)
		if err != nil {
			res = []string{err.Error()} // as it crashes, it will do so below
		}
		alone[i] = res[0]
	}
	cfgDiff := func() string {
		for i := range want {
			if !reflect.DeepEqual(want[i], sharedCfgs[i]) {
				return fmt.Sprintf("settings %d were modified: %v, was %v", i, *sharedCfgs[i], *want[i])
			}
		}
		return ""
	}
	n := len(all)
	// Fresh processes: whatever is set up lazily is set up during the
	// operations. The race detector runs with a handover that it doesn't see,
	// so that it judges every pair of accesses by goclj's own synchronization.
	bin := filepath.Join(os.Getenv("VERIF_BIN"), "explore-race")
	if _, err := os.Stat(bin); err != nil {
		r.Extra("race_detector", "not available")
		bin = ""
	}
	cold := func(c *mc.Case, how string, i, j int) {
		got, err := coldOps(bin, how, i, j)
		c.States(1)
		c.Trans(2)
		desc := fmt.Sprintf("%s in a fresh process: %s; %s", how, all[i], all[j])
		if err != nil {
			c.Fail(desc, "%v", err)
			return
		}
		for k, x := range []int{i, j} {
			c.Valid(1)
			if got[k] != alone[x] {
				c.Fail(desc, "the result of operation %d differs from that alone: %s", k+1, diffAt(got[k], alone[x]))
			}
		}
	}
	r.Space("race/serial", "all ordered pairs of operations, each pair in a fresh process, one after the other without any synchronization that the race detector sees", int64(n*n), func(c *mc.Case) {
		d := c.Dims(n, n)
		cold(c, "serial", d[0], d[1])
	})
	r.Space("race/free", "pairs of operations, each pair in a fresh process, at the same time under the race detector", int64(n*n), func(c *mc.Case) {
		if d := c.Dims(n, n); d[0] <= d[1] && (r.Thorough() || (d[0]+d[1])%3 == 0) {
			cold(c, "free", d[0], d[1])
		}
	})

	// Sequences of operations in one process.
	const allByOne = 15 // one printer for all settings
	history := func(c *mc.Case, seq []int, reuse int) {
		var printers [8]*format.Printer
		var bufs [8]*bytes.Buffer
		var results []opResult
		desc := func() string {
			var s []string
			for _, i := range seq {
				s = append(s, all[i].String())
			}
			return strings.Join(s, "; ") + fmt.Sprintf("; printers reused: %b", reuse)
		}
		c.States(1)
		for k, i := range seq {
			o := all[i]
			var res opResult
			if reuse>>k&1 == 0 || o.cfg < 0 {
				res = o.run()
			} else {
				// One printer per settings, or only one which is given the
				// settings each time.
				res.tree, res.err = impl.ParseFrom(strings.NewReader(o.src), o.name(), o.opts)
				if res.err == nil {
					which := o.cfg
					if reuse == allByOne {
						which = 0
					}
					if printers[which] == nil {
						bufs[which] = new(bytes.Buffer)
						printers[which] = format.NewPrinter(bufs[which])
					}
					p, cfg := printers[which], sharedCfgs[o.cfg]
					p.Transforms, p.IndentOverrides, p.ThreadFirstStyleOverrides = cfg.Transforms, cfg.Indents, cfg.ThreadFirst
					p.IndentChar = ' '
					if cfg.IndentChar != 0 {
						p.IndentChar = cfg.IndentChar
					}
					res.perr = p.PrintTree(res.tree)
					res.out = bufs[which].String()
					bufs[which].Reset()
				}
			}
			c.Trans(1)
			results = append(results, res)
			for j, res := range results {
				c.Valid(1)
				if got := res.dump(); got != alone[seq[j]] {
					c.Fail(desc(), "after step %d, the result of step %d differs from that alone: %s", k+1, j+1, diffAt(got, alone[seq[j]]))
					return
				}
			}
		}
		if d := cfgDiff(); d != "" {
			c.Fail(desc(), "%s", d)
		}
		c.Outcome(desc())
	}
	r.Space("history/2", "all sequences of two operations, each with a new printer or one used before, with the same settings or others", int64(n*n*5), func(c *mc.Case) {
		d := c.Dims(n, n, 5)
		history(c, d[:2], []int{0, 1, 2, 3, allByOne}[d[2]])
	})
	m := n
	if !r.Thorough() {
		m = 12
	}
	r.Space("history/3", "all sequences of three operations", int64(m*m*m*4), func(c *mc.Case) {
		d := c.Dims(m, m, m, 4)
		history(c, d[:3], []int{0, 7, 5, allByOne}[d[3]])
	})

	// One operation while another one waits for its reader.
	r.Space("nested", "every operation within every read of every other one", int64(n*n), func(c *mc.Case) {
		d := c.Dims(n, n)
		for at := 0; at <= len(all[d[0]].src); at++ {
			var inner opResult
			in := &nestingReader{text: all[d[0]].src, at: at, do: func() { inner = all[d[1]].run() }, done: make(chan bool)}
			outer := all[d[0]].runFrom(in)
			c.States(1)
			c.Trans(2)
			c.Valid(1)
			if atomic.LoadInt32(&in.started) == 0 {
				break // an error came first
			}
			<-in.done
			desc := fmt.Sprintf("%s; before byte %d is read, %s", all[d[0]], at, all[d[1]])
			if got := inner.dump(); got != alone[d[1]] {
				c.Fail(desc, "the inner result differs from that alone: %s", diffAt(got, alone[d[1]]))
				return
			}
			if got := outer.dump(); got != alone[d[0]] {
				c.Fail(desc, "the outer result differs from that alone: %s", diffAt(got, alone[d[0]]))
				return
			}
		}
	})

	// A tree printed twice, by one printer or by two.
	r.Space("twice", "printing a tree twice", int64(n*2), func(c *mc.Case) {
		d := c.Dims(n, 2)
		o := all[d[0]]
		if o.cfg != 0 && o.cfg != 3 {
			return
		}
		t, err := impl.Parse(o.src, o.opts)
		if err != nil {
			return
		}
		c.States(1)
		c.Trans(2)
		var buf bytes.Buffer
		p := format.NewPrinter(&buf)
		p.Transforms = sharedCfgs[o.cfg].Transforms
		p.PrintTree(t)
		first := buf.String()
		buf.Reset()
		if d[1] == 1 {
			p = format.NewPrinter(&buf)
			p.Transforms = sharedCfgs[o.cfg].Transforms
		}
		p.PrintTree(t)
		c.Valid(1)
		if buf.String() != first {
			c.Fail(o.String(), "printed twice: first %q, then %q", first, buf.String())
		}
	})

	if schedRun == nil {
		r.Extra("note", "goclj could not be instrumented: no schedules were enumerated")
	} else {
		schedules(r, all, alone, cfgDiff)
	}
}

// A nestingReader delivers a text byte by byte and does something before it
// delivers the byte at an offset, or the end.
type nestingReader struct {
	text  string
	n, at int
	do    func()

	started int32
	done    chan bool
}

func (r *nestingReader) Read(b []byte) (int, error) {
	if r.n == r.at && atomic.CompareAndSwapInt32(&r.started, 0, 1) {
		r.do()
		close(r.done)
	}
	if r.n == len(r.text) {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	b[0] = r.text[r.n]
	r.n++
	return 1, nil
}

// coldOps runs operations in a fresh process of the given binary, or, if bin is
// empty, of this one.
func coldOps(bin, how string, args ...int) ([]string, error) {
	if bin == "" {
		bin, _ = os.Executable()
	}
	a := []string{"ops", how}
	for _, x := range args {
		a = append(a, fmt.Sprint(x))
	}
	cmd := exec.Command(bin, a...)
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0 halt_on_error=1")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		text := stderr.String()
		if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
			text = text[i:]
		}
		return nil, fmt.Errorf("%v: %s", err, firstN(text, 1200))
	}
	return strings.Split(string(out), "\x00"), nil
}

// Ops is the other side of coldOps.
func Ops(args []string) int {
	all := ops()
	var nums []int
	for _, a := range args[1:] {
		x, err := strconv.Atoi(a)
		if err != nil {
			return 2
		}
		nums = append(nums, x)
	}
	var res []opResult
	switch args[0] {
	case "alone":
		res = []opResult{all[nums[0]].run()}
	case "serial":
		res = make([]opResult, 2)
		var turn int32
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			res[0] = all[nums[0]].run()
			setQuietly(&turn, 1)
			awaitQuietly(&turn, 2)
		}()
		go func() {
			defer wg.Done()
			awaitQuietly(&turn, 1)
			res[1] = all[nums[1]].run()
			setQuietly(&turn, 2)
		}()
		wg.Wait()
	case "free":
		res = make([]opResult, 2)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range res {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				res[i] = all[nums[i]].run()
			}()
		}
		close(start)
		wg.Wait()
	case "sched":
		res = make([]opResult, 2)
		var plan []int64
		for _, x := range nums[2:] {
			plan = append(plan, int64(x))
		}
		schedRun(plan, func() { res[0] = all[nums[0]].run() }, func() { res[1] = all[nums[1]].run() })
	default:
		return 2
	}
	for i, r := range res {
		if i > 0 {
			fmt.Print("\x00")
		}
		fmt.Print(r.dump())
	}
	return 0
}

// These hand over between goroutines without the race detector noticing.

//go:norace
func setQuietly(p *int32, v int32) { *p = v }

//go:norace
func awaitQuietly(p *int32, v int32) {
	for *p < v {
		runtime.Gosched()
	}
}

// schedules enumerates the interleavings of two operations.
func schedules(r *mc.Run, all []op, alone []string, cfgDiff func() string) {
	// How many scheduling points an operation has by itself.
	points := make([]int64, len(all))
	for i, o := range all {
		n, _ := schedRun(nil, func() { o.run() })
		points[i] = n[0]
	}
	r.Extra("scheduling_points", points)
	try := func(c *mc.Case, i, j int, plan ...int64) {
		var a, b opResult
		n, stalls := schedRun(append([]int64{}, plan...), func() { a = all[i].run() }, func() { b = all[j].run() })
		c.States(1)
		c.Trans(int(n[0] + n[1]))
		c.Valid(2)
		desc := fmt.Sprintf("A: %s, B: %s; the turn changes after %v statements", all[i], all[j], plan)
		if got := a.dump(); got != alone[i] {
			c.Fail(desc, "the result of A differs from that alone: %s", diffAt(got, alone[i]))
		}
		if got := b.dump(); got != alone[j] {
			c.Fail(desc, "the result of B differs from that alone: %s", diffAt(got, alone[j]))
		}
		if d := cfgDiff(); d != "" {
			c.Fail(desc, "%s", d)
		}
		if stalls > 0 {
			c.Outcome("stalled")
		}
		c.Outcome(desc)
		if c.WantSample() {
			c.Sample(desc)
		}
	}
	type pair struct{ i, j int }
	var pairs []pair
	for i := range all {
		for j := range all {
			if r.Thorough() || (i+j)%7 == 0 || i == j {
				pairs = append(pairs, pair{i, j})
			}
		}
	}
	var off []int64
	total := int64(0)
	for _, p := range pairs {
		off = append(off, total)
		total += points[p.i] + 1
	}
	find := func(x int64) (pair, int64) {
		lo, hi := 0, len(off)
		for hi-lo > 1 {
			if m := (lo + hi) / 2; off[m] <= x {
				lo = m
			} else {
				hi = m
			}
		}
		return pairs[lo], x - off[lo]
	}
	r.Space("schedules/1", "pairs of operations, one preempted after every statement until the other one is done", total, func(c *mc.Case) {
		p, at := find(c.I)
		try(c, p.i, p.j, at+1)
	})
	// Two preemptions: A for a, B for b statements, then A, then B.
	two := []pair{{0, 0}}
	if r.Thorough() {
		two = []pair{{0, 0}, {0, 9}, {8, 0}, {0, 10}, {2, 0}, {0, 1}, {5, 0}, {1, 1}, {6, 0}}
	}
	for _, p := range two {
		p := p
		n, m := points[p.i]+1, points[p.j]+1
		r.Space(fmt.Sprintf("schedules/2/%d-%d", p.i, p.j), "two operations, both preempted after every number of statements", n*m, func(c *mc.Case) {
			try(c, p.i, p.j, c.I/m+1, c.I%m+1)
		})
	}
	// In fresh processes.
	coldPairs := []pair{{0, 0}, {7, 0}, {2, 2}, {4, 6}}
	if r.Thorough() {
		coldPairs = append(coldPairs, pair{4, 4}, pair{6, 4}, pair{5, 2}, pair{3, 11})
	}
	for _, p := range coldPairs {
		p := p
		r.Space(fmt.Sprintf("schedules/cold/%d-%d", p.i, p.j), "two operations in a fresh process, one preempted after every statement until the other one is done", points[p.i]+1, func(c *mc.Case) {
			got, err := coldOps("", "sched", p.i, p.j, int(c.I+1))
			c.States(1)
			c.Trans(2)
			desc := fmt.Sprintf("in a fresh process A: %s, B: %s; the turn changes after %d statements", all[p.i], all[p.j], c.I+1)
			if err != nil {
				c.Fail(desc, "%v", err)
				return
			}
			for k, x := range []int{p.i, p.j} {
				c.Valid(1)
				if got[k] != alone[x] {
					c.Fail(desc, "the result of operation %d differs from that alone: %s", k+1, diffAt(got[k], alone[x]))
				}
			}
		})
	}
	// Three operations at once.
	r.Space("schedules/3", "three operations, the first preempted after every statement, then the second after as many", points[0]+1, func(c *mc.Case) {
		var res [3]opResult
		idx := []int{0, 3, 9}
		n, _ := schedRun([]int64{c.I + 1, c.I + 1}, func() { res[0] = all[0].run() }, func() { res[1] = all[3].run() }, func() { res[2] = all[9].run() })
		c.States(1)
		c.Trans(int(n[0] + n[1] + n[2]))
		for k, i := range idx {
			c.Valid(1)
			if got := res[k].dump(); got != alone[i] {
				c.Fail(fmt.Sprintf("three operations, turns after %d statements", c.I+1), "result %d: %s", k, diffAt(got, alone[i]))
			}
		}
	})
}
