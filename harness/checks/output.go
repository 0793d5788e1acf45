package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
	"verif/impl"
	"verif/mc"
)

func init() {
	add(&mc.Check{ID: "C26", Run: runC26, Level: "fault_enumeration",
		Rule: "a destination that fails at a given byte of the output, or a comparison of complete output with what an in-memory destination gets",
		Assumptions: []string{
			"the correct output is what printing to a destination that doesn't fail gives",
			"destinations keep the io.Writer contract, apart from short writes without an error"}})
}

// A failingWriter fails once limit bytes have been written.
type failingWriter struct {
	limit int
	mode  int
	got   bytes.Buffer
	// failed is set once it has failed; before is what it held then.
	failed bool
	before string
	err    error // errFull unless given
}

var errFull = errors.New("destination is full")

const (
	failPartial = iota // takes what fits and fails
	failWhole          // takes nothing of a write that doesn't fit
	failShort          // takes what fits and reports a short count but no error
	failOnce           // like failPartial, but only the first time
	failTaken          // takes all of it and fails nonetheless
	numFailModes
)

func (w *failingWriter) Write(p []byte) (int, error) {
	if w.got.Len()+len(p) <= w.limit || w.failed && w.mode == failOnce {
		return w.got.Write(p)
	}
	n := w.limit - w.got.Len()
	if n < 0 {
		n = 0
	}
	if w.mode == failWhole || w.failed {
		n = 0
	}
	if w.mode == failTaken && !w.failed {
		n = len(p)
	}
	w.got.Write(p[:n])
	if !w.failed {
		w.failed, w.before = true, w.got.String()
	}
	if w.mode == failShort {
		return n, nil
	}
	if w.err != nil {
		return n, w.err
	}
	return n, errFull
}

// judgeOutput prints src to a destination that fails after limit bytes. want
// is the correct output.
func judgeOutput(c *mc.Case, src, want string, limit, mode int) {
	judgePadded(c, 0, src, want, limit, mode)
}

// padded is src after a comment of pad bytes, without lexing the comment.
func padded(pad int, src string) (t *parse.Tree, err error) {
	t, err = impl.Parse(src, impl.Full)
	if pad > 0 && err == nil {
		comment := &parse.CommentNode{Text: ";" + strings.Repeat("c", pad-1)}
		t.Roots = append([]parse.Node{comment, new(parse.NewlineNode)}, t.Roots...)
	}
	return t, err
}

// judgePadded is judgeOutput for src after a comment of pad bytes.
func judgePadded(c *mc.Case, pad int, src, want string, limit, mode int) {
	t, err := padded(pad, src)
	if err != nil {
		c.Fail(q(src), "rejected: %v", err)
		return
	}
	w := &failingWriter{limit: limit, mode: mode}
	err = printTo(t, w, nil)
	c.Trans(1)
	c.Nontrivial(1)
	desc := func() string {
		return fmt.Sprintf("%s after a comment of %d bytes, the destination fails after %d bytes (mode %d)", q(src), pad, limit, mode)
	}
	switch {
	case isPanic(err):
		c.Fail(desc(), "%v", err)
	case w.failed && err == nil:
		c.Fail(desc(), "printing succeeded")
	case !w.failed && err != nil:
		c.Fail(desc(), "printing failed although the destination didn't: %v", err)
	case w.failed && !strings.HasPrefix(want, w.before):
		c.Fail(desc(), "the destination got %s, want a prefix of %s", q(w.before), q(want))
	case !w.failed && w.got.String() != want:
		c.Fail(desc(), "the destination got %s, want %s", q(w.got.String()), q(want))
	}
}

func printTo(t *parse.Tree, w *failingWriter, cfg *impl.Cfg) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("PANIC: %v", e)
		}
	}()
	return impl.PrintTo(t, w, cfg)
}

func runC26(r *mc.Run) {
	texts := append(append([]string{}, corpus...), switchTexts...)
	small := func(i int64) (src, want string, ok bool) {
		src = texts[i]
		want, ok, err := impl.Format(src, nil)
		return src, want, ok && err == nil
	}
	r.Space("small", "every failure of the destination while printing corpus texts", mc.Size(len(texts), numFailModes), func(c *mc.Case) {
		d := c.Dims(len(texts), numFailModes)
		src, want, ok := small(int64(d[0]))
		if !ok {
			return
		}
		c.States(1)
		c.Outcome(want)
		for k := 0; k <= len(want); k++ {
			judgeOutput(c, src, want, k, d[1])
		}
	})
	// Everything there is to print, at the end of a full buffer: a comment in
	// front moves the boundary over the text.
	around := 32
	if r.Thorough() {
		around = 40
	}
	r.Space("boundary", "corpus texts moved over the buffer boundaries; failures around each boundary", mc.Size(len(texts), numFailModes, 2), func(c *mc.Case) {
		d := c.Dims(len(texts), numFailModes, 2)
		src, want, ok := small(int64(d[0]))
		if !ok || strings.HasPrefix(src, "#!") {
			return
		}
		c.States(1)
		for l := 0; l <= len(want); l++ {
			pad := 4096*(1+d[2]) - 1 - l
			t, _ := padded(pad, src)
			want, err := impl.Print(t, nil)
			if err != nil {
				c.Fail(q(src), "not formatted after a comment of %d bytes: %v", pad, err)
				return
			}
			c.Trans(1)
			full := 4096 * (1 + d[2])
			for _, k := range []int{full - 1, full, full + 1, len(want) - 1} {
				judgePadded(c, pad, src, want, k, d[1])
			}
			if l%around == 0 || r.Thorough() {
				for k := pad - 2; k < len(want) && k < pad+40; k++ {
					judgePadded(c, pad, src, want, k, d[1])
				}
			}
			if c.Failed() {
				return
			}
		}
	})
	long := longTexts()
	step := 64
	if r.Thorough() {
		step = 1
	}
	r.Space("long", fmt.Sprintf("failures at every %d. byte, and every one around multiples of the buffer size, of texts of several buffers", step), mc.Size(len(long), numFailModes, 64), func(c *mc.Case) {
		d := c.Dims(len(long), numFailModes, 64)
		src := long[d[0]]
		want, ok, err := impl.Format(src, nil)
		if !ok || err != nil {
			c.Fail(q(src), "not formatted: %v", err)
			return
		}
		c.States(1)
		for k := d[2]; k <= len(want) && !c.Failed(); k += 64 {
			near := (k+8)%4096 <= 16
			if near || k/64%step == d[2]%step || k >= len(want)-16 {
				judgeOutput(c, src, want, k, d[1])
			}
		}
	})
	// Every kind of error.
	kinds := append(errs, io.EOF, fmt.Errorf("b: %w", io.EOF))
	errTexts := append([]string{"a", "(a\nb)", "(a ;c\n)", "\"s\nt\"", "", "\n", strings.Repeat("(a b)\n", 800)}, corpus[:6]...)
	r.Space("errors", "destinations that fail with every kind of error", mc.Size(len(kinds), len(errTexts), numFailModes), func(c *mc.Case) {
		d := c.Dims(len(kinds), len(errTexts), numFailModes)
		src := errTexts[d[1]]
		want, ok, err := impl.Format(src, nil)
		if !ok || err != nil || d[2] == failShort {
			return
		}
		c.States(1)
		for _, limit := range []int{0, 1, 2, len(want) / 2, len(want) - 1, 4095, 4096, 4097} {
			if limit < 0 || limit >= len(want) {
				continue
			}
			t, _ := impl.Parse(src, impl.Full)
			w := &failingWriter{limit: limit, mode: d[2], err: kinds[d[0]]}
			err := printTo(t, w, nil)
			c.Trans(1)
			c.Nontrivial(1)
			if err == nil || isPanic(err) || !strings.HasPrefix(want, w.before) {
				c.Fail(q(src), "the destination fails after %d bytes (mode %d) with %q (%T): the result is %v", limit, d[2], kinds[d[0]], kinds[d[0]], err)
			}
		}
	})
	// Two trees printed one after the other by one printer.
	r.Space("twice", "a printer that prints two trees, whose destination fails during either", mc.Size(len(texts), numFailModes), func(c *mc.Case) {
		d := c.Dims(len(texts), numFailModes)
		src, want, ok := small(int64(d[0]))
		if !ok {
			return
		}
		c.States(1)
		for k := 0; k < 2*len(want); k++ {
			w := &failingWriter{limit: k, mode: d[1]}
			p := format.NewPrinter(w)
			desc := fmt.Sprintf("%s printed twice, the destination fails after %d bytes (mode %d)", q(src), k, d[1])
			for n := 0; n < 2 && !c.Failed(); n++ {
				t, _ := impl.Parse(src, impl.Full)
				before := w.failed
				err := p.PrintTree(t)
				c.Trans(1)
				c.Nontrivial(1)
				if w.failed && !before && err == nil {
					c.Fail(desc, "printing number %d succeeded", n+1)
				}
				if !w.failed && err != nil {
					c.Fail(desc, "printing number %d failed although the destination didn't: %v", n+1, err)
				}
				if w.failed && !strings.HasPrefix(want+want, w.before) {
					c.Fail(desc, "the destination got %s, want a prefix of %s twice", q(w.before), q(want))
				}
			}
		}
	})
	// The tool.
	type job struct {
		args  []string
		stdin string
		files map[string]string
		want  string
		name  string
	}
	var jobs []job
	a, b := switchTexts[0], "(b c)\n"
	format1 := func(src string) string {
		s, _, _ := impl.Format(src, nil)
		return s
	}
	big := strings.Repeat("(defn foo\n  [x] (+ x 1))\n", 8000)
	jobs = append(jobs,
		job{nil, a, nil, format1(a), "standard input"},
		job{nil, b, nil, b, "formatted standard input"},
		job{[]string{"a.clj"}, "", map[string]string{"w/a.clj": a}, format1(a), "a file"},
		job{[]string{"a.clj", "b.clj"}, "", map[string]string{"w/a.clj": a, "w/b.clj": b}, format1(a) + b, "two files"},
		job{[]string{"."}, "", map[string]string{"w/a.clj": a, "w/b.clj": b}, format1(a) + b, "a directory"},
		job{[]string{"-l", "a.clj"}, "", map[string]string{"w/a.clj": a}, "a.clj\n", "listing a file"},
		job{[]string{"-l", ".", "a.clj"}, "", map[string]string{"w/a.clj": a, "w/b.clj": b, "w/c/d.clj": a}, "a.clj\nc/d.clj\na.clj\n", "listing"},
		job{nil, big, nil, format1(big), "large standard input"},
		job{[]string{"a.clj", "b.clj"}, "", map[string]string{"w/a.clj": a, "w/b.clj": big}, format1(a) + format1(big), "a large file"},
	)
	type limit struct{ job, k int }
	var limits []limit
	for i, j := range jobs {
		n := len(j.want)
		for k := 0; k <= n; k++ {
			near := k%32768 <= 1 || k%32768 == 32767 || k == n-1 || k == n
			if n < 1000 || near || k%4096 == 0 && r.Thorough() {
				limits = append(limits, limit{i, k})
			}
		}
	}
	r.Space("full", "standard output that takes only so many bytes (a file size limit)", int64(len(limits)), func(c *mc.Case) {
		l := limits[c.I]
		j := jobs[l.job]
		dir, err := scratch(j.files, nil)
		defer os.RemoveAll(dir)
		if err != nil {
			panic(err)
		}
		out, err := os.Create(filepath.Join(dir, "out"))
		if err != nil {
			panic(err)
		}
		defer out.Close()
		res := runCLI(c, cliRun{args: j.args, stdin: j.stdin, dir: dir, out: out, via: []string{"prlimit", fmt.Sprintf("--fsize=%d", l.k), "--"}})
		got, _ := os.ReadFile(out.Name())
		c.States(1)
		c.Nontrivial(1)
		desc := fmt.Sprintf("%s, %d of %d bytes fit on standard output", j.name, l.k, len(j.want))
		if full := l.k < len(j.want); full && res.exit == 0 {
			c.Fail(desc, "exit status 0")
		} else if !full && (res.exit != 0 || string(got) != j.want) {
			c.Fail(desc, "exit status %d (%s), output %s; want %s", res.exit, res.stderr, q(string(got)), q(j.want))
		} else if !strings.HasPrefix(j.want, string(got)) {
			c.Fail(desc, "output %s; want a prefix of %s", q(string(got)), q(j.want))
		}
	})
	r.Space("device", "standard output that takes nothing: a full device, a pipe nobody reads", mc.Size(len(jobs), 2), func(c *mc.Case) {
		d := c.Dims(len(jobs), 2)
		j := jobs[d[0]]
		var out *os.File
		var err error
		if d[1] == 0 {
			out, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
		} else {
			var in *os.File
			if in, out, err = os.Pipe(); err == nil {
				in.Close()
			}
		}
		if err != nil {
			panic(err)
		}
		defer out.Close()
		res := runCLI(c, cliRun{args: j.args, stdin: j.stdin, files: j.files, out: out})
		c.States(1)
		c.Nontrivial(1)
		if res.exit == 0 {
			c.Fail(fmt.Sprintf("%s, %s as standard output", j.name, []string{"/dev/full", "a closed pipe"}[d[1]]), "exit status 0")
		}
	})
}

// longTexts have outputs of several buffers, with few and with large tokens.
func longTexts() []string {
	texts := []string{
		strings.Repeat(switchTexts[0], 30),
		";" + strings.Repeat("c", 9000),
		"\"" + strings.Repeat("é\n", 3000) + "\"",
		strings.Repeat("s", 4096) + " " + strings.Repeat("t", 4095) + "\n",
		strings.Repeat("(", 200) + strings.Repeat("\na", 60) + strings.Repeat(")", 200),
	}
	for _, n := range []int{4094, 4095, 4096, 8191, 8192} {
		texts = append(texts, strings.Repeat("a\n", n/2)+strings.Repeat("b", n%2))
	}
	return texts
}
