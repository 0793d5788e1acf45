// Package mc is a small explicit-state explorer: it enumerates finite, indexed
// spaces of cases completely, in parallel, simplest case first, and keeps the
// account (states, transitions, cases compared with the reference model,
// distinct outcomes). Every case is identified by (space, index), so any
// violation can be replayed exactly.
package mc

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Dir is /verif (or wherever the framework lives).
var Dir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

// A Check explores one property.
type Check struct {
	ID          string
	Level       string // default model_checking
	Rule        string // what makes a case non-trivial, for fault_enumeration
	Assumptions []string
	Run         func(r *Run)
	// Unstable is set for checks whose subject is nondeterminism: a failure
	// that happens again at all is believed, others must happen every time.
	Unstable bool
	// Setup prepares a process before it explores (builds binaries, ...).
	Workers int
}

type spaceStat struct {
	Name     string `json:"space"`
	Size     int64  `json:"size"`
	Done     int64  `json:"explored"`
	Complete bool   `json:"complete"`
	What     string `json:"what,omitempty"`
	Millis   int64  `json:"ms"`
	Reached  int64  `json:"cases_that_reached_the_comparison"`
}

// Run is one run of a check.
type Run struct {
	Check    *Check
	Tier     string
	Seed     int64
	Prefix   string // of the names of spaces
	start    time.Time
	deadline time.Time
	spaces   []*spaceStat

	states, trans, valid, evals, nontrivial int64

	outMu    [64]sync.Mutex
	outcomes [64]map[uint64]struct{}

	sampleMu sync.Mutex
	samples  []interface{}

	only     string // "space:index": run only this case
	onlyIdx  int64
	onlyFail string

	slots    []byte // shared with the supervising process
	viol     *violation
	known    map[string]bool
	knownHit map[string]string
	extra    map[string]interface{}
	unstable []string
}

type violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Space    string `json:"space"`
	Index    int64  `json:"index"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Replay   string `json:"replay_with"`
	Stable   string `json:"reruns,omitempty"`
}

// Case is one explored case.
type Case struct {
	*Run
	I                  int64
	Worker             int
	failed             bool
	desc               string
	what               string
	st, tr, va, ev, nt int64
	rerun              bool
}

// Fail records that the case violates the property. desc describes the case
// completely; what says what went wrong.
func (c *Case) Fail(desc, what string, args ...interface{}) {
	if c.failed {
		return
	}
	if len(args) > 0 {
		what = fmt.Sprintf(what, args...)
	}
	if c.known[desc] {
		c.sampleMu.Lock()
		c.knownHit[desc] = what
		c.sampleMu.Unlock()
		return
	}
	c.failed, c.desc, c.what = true, desc, what
}

// Failed reports whether Fail has been called.
func (c *Case) Failed() bool { return c.failed }

// States counts n distinct states (cases) reached.
func (c *Case) States(n int) { c.st += int64(n) }

// Trans counts n transitions: calls into the implementation.
func (c *Case) Trans(n int) { c.tr += int64(n) }

// Valid counts n implementation results compared with the reference model.
func (c *Case) Valid(n int) { c.va += int64(n) }

// Nontrivial counts n cases that are non-trivial by the check's rule.
func (c *Case) Nontrivial(n int) { c.nt += int64(n) }

const outcomeCap = 1 << 17 // per shard

// Outcome notes an observed outcome, to count distinct ones.
func (c *Case) Outcome(s string) {
	if c.rerun {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	v := h.Sum64()
	i := v >> 58
	c.outMu[i].Lock()
	if m := c.outcomes[i]; len(m) < outcomeCap {
		m[v] = struct{}{}
	}
	c.outMu[i].Unlock()
}

// Sample keeps a few cases for the evidence file.
func (c *Case) Sample(v interface{}) {
	if c.rerun {
		return
	}
	c.sampleMu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.sampleMu.Unlock()
}

// WantSample reports whether this case should be sampled: a few, spread out.
func (c *Case) WantSample() bool { return c.I%99991 == 17 }

// Thorough reports whether this is the thorough tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Extra adds an entry to the evidence's coverage.
func (r *Run) Extra(k string, v interface{}) { r.extra[k] = v }

// Done reports whether exploring should stop: a violation was found.
func (r *Run) Done() bool { return r.viol != nil }

// Replaying reports whether only one case is being run.
func (r *Run) Replaying() bool { return r.only != "" }

// Space explores all n cases of a space.
func (r *Run) Space(name, what string, n int64, f func(c *Case)) {
	name = r.Prefix + name
	if r.only != "" {
		if r.only == name && r.onlyIdx < n {
			c := &Case{Run: r, I: r.onlyIdx, rerun: true}
			f(c)
			if c.failed {
				r.onlyFail = c.what
				r.viol = &violation{Property: r.Check.ID, Tier: r.Tier, Space: name, Index: c.I, Case: c.desc, What: c.what}
			}
		}
		return
	}
	if r.viol != nil {
		return
	}
	if o := os.Getenv("VERIF_SPACES"); o != "" && !strings.Contains(name, o) {
		return // for developing checks
	}
	st := &spaceStat{Name: name, Size: n, What: what}
	r.spaces = append(r.spaces, st)
	sid := len(r.spaces)
	t0 := time.Now()
	workers := runtime.NumCPU()
	if r.Check.Workers > 0 {
		workers = r.Check.Workers
	}
	chunk := n / int64(workers) / 50
	if chunk < 1 {
		chunk = 1
	}
	if chunk > 2000 {
		chunk = 2000
	}
	var next, done, reached int64
	var stop int32
	var mu sync.Mutex
	var fails []*Case
	var unstable int
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var cc Case
			slot := r.slots[w*16 : w*16+16]
			binary.LittleEndian.PutUint64(slot[0:], uint64(sid))
			for atomic.LoadInt32(&stop) == 0 && time.Now().Before(r.deadline) {
				lo := atomic.AddInt64(&next, chunk) - chunk
				if lo >= n {
					break
				}
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				for i := lo; i < hi; i++ {
					atomic.StoreUint64((*uint64)(ptr(slot[8:])), uint64(i)+1)
					cc = Case{Run: r, I: i, Worker: w}
					cc.ev = 1
					f(&cc)
					atomic.AddInt64(&r.states, cc.st)
					atomic.AddInt64(&r.trans, cc.tr)
					atomic.AddInt64(&r.valid, cc.va)
					atomic.AddInt64(&r.evals, cc.ev)
					atomic.AddInt64(&r.nontrivial, cc.nt)
					atomic.AddInt64(&done, 1)
					if cc.st+cc.va+cc.nt > 0 {
						atomic.AddInt64(&reached, 1)
					}
					if cc.failed {
						cp := cc
						if s := r.confirm(&cp, f); s != "" {
							cp.what += " [" + s + "]"
							mu.Lock()
							fails = append(fails, &cp)
							mu.Unlock()
							atomic.StoreInt32(&stop, 1)
							break
						}
						mu.Lock()
						unstable++
						if unstable <= 5 {
							r.unstable = append(r.unstable, fmt.Sprintf("%s:%d %s: %s", name, i, cp.desc, cp.what))
							fmt.Fprintf(os.Stderr, "not reproducible, not reported: %s:%d %s: %s\n", name, i, cp.desc, cp.what)
						}
						mu.Unlock()
					}
				}
			}
			atomic.StoreUint64((*uint64)(ptr(slot[8:])), 0)
		}(w)
	}
	wg.Wait()
	st.Done = done
	st.Complete = done == n
	st.Reached = reached
	if reached == 0 && st.Complete {
		fmt.Fprintf(os.Stderr, "space %s: no case reached the comparison\n", name)
	}
	st.Millis = time.Since(t0).Milliseconds()
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].I < fails[j].I })
		c := fails[0]
		r.viol = &violation{Property: r.Check.ID, Tier: r.Tier, Space: name, Index: c.I, Case: c.desc, What: c.what}
	}
}

// confirm runs a failing case five more times. It returns "" if the failure is
// not to be believed.
func (r *Run) confirm(c *Case, f func(c *Case)) string {
	again := 0
	for i := 0; i < 5; i++ {
		c2 := &Case{Run: r, I: c.I, Worker: c.Worker, rerun: true}
		f(c2)
		if c2.failed {
			again++
		}
	}
	if again == 5 || r.Check.Unstable && again > 0 {
		return fmt.Sprintf("failed %d of 5 reruns", again)
	}
	return ""
}

// Seqs explores all sequences of lengths min..max over an alphabet.
func (r *Run) Seqs(name, what string, alpha []string, min, max int, f func(c *Case, parts []string)) {
	k := int64(len(alpha))
	for l := min; l <= max; l++ {
		n := int64(1)
		for i := 0; i < l; i++ {
			n *= k
		}
		l := l
		r.Space(fmt.Sprintf("%s/len%d", name, l), what, n, func(c *Case) {
			parts := make([]string, l)
			x := c.I
			for j := l - 1; j >= 0; j-- {
				parts[j] = alpha[x%k]
				x /= k
			}
			f(c, parts)
		})
	}
}

// List explores a list of cases.
func List[T any](r *Run, name, what string, list []T, f func(c *Case, v T)) {
	r.Space(name, what, int64(len(list)), func(c *Case) { f(c, list[c.I]) })
}

// Dims decodes the index of a product space: dims[0] varies slowest.
func (c *Case) Dims(dims ...int) []int {
	out := make([]int, len(dims))
	x := c.I
	for j := len(dims) - 1; j >= 0; j-- {
		out[j] = int(x % int64(dims[j]))
		x /= int64(dims[j])
	}
	return out
}

// Size is the number of cases of a product space.
func Size(dims ...int) int64 {
	n := int64(1)
	for _, d := range dims {
		n *= int64(d)
	}
	return n
}

// Digits is Seqs for ints: the l digits of i in base k.
func Digits(i int64, k, l int) []int {
	out := make([]int, l)
	for j := l - 1; j >= 0; j-- {
		out[j] = int(i % int64(k))
		i /= int64(k)
	}
	return out
}

// Pow is k**l.
func Pow(k, l int) int64 {
	n := int64(1)
	for i := 0; i < l; i++ {
		n *= int64(k)
	}
	return n
}

// Known loads the cases of recorded findings of a property.
func loadKnown(prop string) map[string]bool {
	m := map[string]bool{}
	data, _ := os.ReadFile(filepath.Join(Dir, "known_findings.txt"))
	for _, line := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+prop+" case=")
		if !ok {
			continue
		}
		// case="..." as a Go string, then free text
		if q, err := strconv.QuotedPrefix(rest); err == nil {
			s, _ := strconv.Unquote(q)
			m[s] = true
		}
	}
	return m
}

func (r *Run) evidence() map[string]interface{} {
	cov := map[string]interface{}{}
	for k, v := range r.extra {
		cov[k] = v
	}
	exhaustive := true
	for _, s := range r.spaces {
		exhaustive = exhaustive && s.Complete
	}
	distinct := 0
	capped := false
	for i := range r.outcomes {
		distinct += len(r.outcomes[i])
		capped = capped || len(r.outcomes[i]) >= outcomeCap
	}
	if len(r.samples) == 0 {
		for _, s := range r.spaces {
			r.samples = append(r.samples, s.Name)
		}
	}
	cov["samples"] = r.samples
	cov["exhaustive"] = exhaustive
	cov["spaces"] = r.spaces
	cov["distinct_outcomes"] = distinct
	if capped {
		cov["distinct_outcomes_note"] = "counting stopped at a cap; there are at least this many"
	}
	if r.level() == "fault_enumeration" {
		cov["evaluations"] = r.evals
		cov["distinct_nontrivial"] = r.nontrivial
		cov["rule"] = r.Check.Rule
		cov["executions"] = r.trans
	} else {
		cov["cases"] = r.evals
		cov["cases_accepted"] = r.states
		cov["states"] = r.states
		if distinct > 0 {
			// what the implementation made of the cases, without repetitions
			cov["states"] = distinct
		}
		cov["transitions"] = r.trans
		cov["traces_validated_against_impl"] = r.valid
	}
	if len(r.unstable) > 0 {
		cov["not_reproducible"] = r.unstable
	}
	viols := 0
	if r.viol != nil {
		viols = 1
	}
	return map[string]interface{}{
		"property": r.Check.ID, "tier": r.Tier, "seed": r.Seed, "level": r.level(),
		"coverage": cov, "assumptions": r.Check.Assumptions,
		"wall_s": time.Since(r.start).Seconds(), "violations": viols,
	}
}

func (r *Run) level() string {
	if r.Check.Level != "" {
		return r.Check.Level
	}
	return "model_checking"
}

func writeJSON(path string, v interface{}) {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, append(data, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func (v *violation) report() {
	v.Replay = fmt.Sprintf("%s/run.sh replay %s/replays/%s.json", Dir, Dir, v.Property)
	path := filepath.Join(Dir, "replays", v.Property+".json")
	writeJSON(path, v)
	fmt.Printf("%s: %s\n  case: %s\n", v.Property, v.What, v.Case)
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
}

func newRun(c *Check, tier string) *Run {
	r := &Run{Check: c, Tier: tier, start: time.Now(), extra: map[string]interface{}{}, knownHit: map[string]string{}}
	r.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	limit := 240 * time.Second
	if tier == "thorough" {
		limit = 800 * time.Second
	}
	if s := os.Getenv("VERIF_LIMIT_S"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	r.deadline = r.start.Add(limit)
	for i := range r.outcomes {
		r.outcomes[i] = map[uint64]struct{}{}
	}
	r.known = loadKnown(c.ID)
	return r
}

const maxWorkers = 256

// Main is the entry point: run, child, only and replay.
func Main(checks []*Check, args []string) int {
	find := func(id string) *Check {
		for _, c := range checks {
			if c.ID == id {
				return c
			}
		}
		fmt.Fprintf(os.Stderr, "unknown check %q\n", id)
		os.Exit(2)
		return nil
	}
	if len(args) < 2 && (len(args) == 0 || args[0] != "list") {
		fmt.Fprintln(os.Stderr, "usage: run|replay ...")
		return 2
	}
	switch args[0] {
	case "list":
		for _, c := range checks {
			fmt.Println(c.ID, c.Level)
		}
		return 0
	case "run":
		return supervise(find(args[1]), args[2])
	case "child":
		return child(find(args[1]), args[2], args[3])
	case "only":
		i, _ := strconv.ParseInt(args[4], 10, 64)
		return only(find(args[1]), args[2], args[3], i)
	case "replay":
		var v violation
		data, err := os.ReadFile(args[1])
		if err == nil {
			err = json.Unmarshal(data, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		return only(find(v.Property), v.Tier, v.Space, v.Index)
	}
	return 2
}

const heapLimit = 8 << 30

// watchHeap ends the process when it runs away.
func watchHeap() {
	for {
		time.Sleep(100 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapLimit {
			fmt.Fprintln(os.Stderr, "runaway memory use")
			os.Exit(99)
		}
	}
}

func only(c *Check, tier, space string, i int64) int {
	go watchHeap()
	r := newRun(c, tier)
	r.deadline = time.Now().Add(time.Hour)
	r.slots = make([]byte, maxWorkers*16)
	r.only, r.onlyIdx = space, i
	c.Run(r)
	if r.viol != nil {
		fmt.Printf("%s\n  case: %s\n", r.viol.What, r.viol.Case)
		return 1
	}
	fmt.Println("the case holds")
	return 0
}

func child(c *Check, tier, slotFile string) int {
	r := newRun(c, tier)
	f, err := os.OpenFile(slotFile, os.O_RDWR, 0)
	if err == nil {
		r.slots, err = syscall.Mmap(int(f.Fd()), 0, maxWorkers*16+8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	go watchHeap()
	go func() { // publish space names for the supervisor
		for {
			r.publishNames()
			time.Sleep(20 * time.Millisecond)
		}
	}()
	r.wrapNames()
	c.Run(r)
	for desc, what := range r.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, desc, what)
	}
	writeJSON(filepath.Join(Dir, "evidence", c.ID+".json"), r.evidence())
	for _, s := range r.spaces {
		fmt.Printf("  %-28s %10d of %10d  %9d judged %6d ms  %s\n", s.Name, s.Done, s.Size, s.Reached, s.Millis, s.What)
	}
	fmt.Printf("%s %s: states %d, transitions %d, compared %d, %.1f s\n", c.ID, tier, r.states, r.trans, r.valid, time.Since(r.start).Seconds())
	if r.viol != nil {
		r.viol.report()
		return 1
	}
	return 0
}

func (r *Run) wrapNames() {}

func (r *Run) publishNames() {
	defer func() { recover() }()
	var names []string
	for _, s := range r.spaces {
		names = append(names, s.Name)
	}
	b := []byte(strings.Join(names, "\n"))
	area := r.slots[maxWorkers*16:]
	if len(b) < len(area)-8 {
		copy(area[8:], b)
		binary.LittleEndian.PutUint64(area, uint64(len(b)))
	}
}

// supervise runs the exploration in a child process. If that crashes, hangs
// in a case or runs away, the case it was at is found and run again.
func supervise(c *Check, tier string) int {
	dir, err := os.MkdirTemp("", "verif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	slotFile := filepath.Join(dir, "slots")
	os.WriteFile(slotFile, make([]byte, maxWorkers*16+8192), 0644)
	self, _ := os.Executable()
	os.Setenv("VERIF_SCRATCH", dir)
	r := newRun(c, tier)
	cmd := exec.Command(self, "child", c.ID, tier, slotFile)
	cmd.Stdout = os.Stdout
	tail := &tailWriter{}
	cmd.Stderr = tail
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	read := func() (names []string, slots []uint64) {
		b, _ := os.ReadFile(slotFile)
		if len(b) < maxWorkers*16+8192 {
			return
		}
		area := b[maxWorkers*16:]
		n := binary.LittleEndian.Uint64(area)
		if n > 0 && n < 8000 {
			names = strings.Split(string(area[8:8+n]), "\n")
		}
		for i := 0; i < maxWorkers*2; i++ {
			slots = append(slots, binary.LittleEndian.Uint64(b[i*8:]))
		}
		return
	}
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	stuck := map[int]time.Time{}
	last := map[int]uint64{}
	hung := false
	hangLimit := 60 * time.Second
	var werr error
loop:
	for {
		select {
		case werr = <-exited:
			break loop
		case <-time.After(500 * time.Millisecond):
		}
		_, slots := read()
		for w := 0; w*2+1 < len(slots); w++ {
			v := slots[w*2+1]
			if v == 0 || v != last[w] {
				last[w], stuck[w] = v, time.Now()
				continue
			}
			if time.Since(stuck[w]) > hangLimit {
				hung = true
			}
		}
		if hung {
			cmd.Process.Kill()
			werr = <-exited
			break loop
		}
	}
	code := cmd.ProcessState.ExitCode()
	os.Stderr.Write(tail.b)
	if !hung && (code == 0 || code == 1) {
		return code
	}
	// It crashed, hung or ran away. Run the cases it was at again.
	names, slots := read()
	fmt.Printf("exploration ended abnormally (%v)\n", werr)
	type cand struct {
		space string
		i     int64
	}
	var cands []cand
	for w := 0; w*2+1 < len(slots); w++ {
		if sid, v := slots[w*2], slots[w*2+1]; v > 0 && sid > 0 && int(sid) <= len(names) {
			cands = append(cands, cand{names[sid-1], int64(v - 1)})
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].i < cands[j].i })
	for _, ca := range cands {
		bad := 0
		what := ""
		for try := 0; try < 3; try++ {
			cmd := exec.Command(self, "only", c.ID, tier, ca.space, fmt.Sprint(ca.i))
			out := &tailWriter{}
			cmd.Stdout, cmd.Stderr = out, out
			if cmd.Start() != nil {
				continue
			}
			timer := time.AfterFunc(hangLimit/2, func() { cmd.Process.Kill() })
			cmd.Wait()
			killed := !timer.Stop()
			switch code := cmd.ProcessState.ExitCode(); {
			case killed:
				bad++
				what = "does not terminate"
			case code == 99:
				bad++
				what = "uses memory without bound"
			case code != 0:
				bad++
				what = "crashes: " + firstLines(string(out.b), 3)
			}
			if bad != try+1 {
				break
			}
		}
		if bad == 3 {
			r.spaces = append(r.spaces, &spaceStat{Name: ca.space})
			r.viol = &violation{Property: c.ID, Tier: tier, Space: ca.space, Index: ca.i, Case: fmt.Sprintf("%s:%d", ca.space, ca.i), What: what}
			writeJSON(filepath.Join(Dir, "evidence", c.ID+".json"), r.evidence())
			r.viol.report()
			return 1
		}
	}
	return 2
}

func firstLines(s string, n int) string {
	lines := strings.SplitN(s, "\n", n+1)
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, " | ")
}

type tailWriter struct{ b []byte }

func (t *tailWriter) Write(p []byte) (int, error) {
	if room := 20000 - len(t.b); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		t.b = append(t.b, p[:room]...)
	}
	return len(p), nil
}
