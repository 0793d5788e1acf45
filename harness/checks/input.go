package checks

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/cespare/goclj/parse"
	"verif/impl"
	"verif/mc"
	"verif/ref"
)

func init() {
	add(&mc.Check{ID: "C06", Run: runC06, Level: "fault_enumeration",
		Rule:        "a case is a text with every enumerated way its bytes can arrive (chunkings, empty reads, errors at every offset); it is non-trivial if the reader was called more than once",
		Assumptions: []string{"a reader returns no more than two empty reads in a row", "at most one read error per parse"}})
	add(&mc.Check{ID: "C07", Run: runC07, Workers: 1, Assumptions: []string{
		"a goroutine that is still there 3 s after the parse returned, on each of 6 runs, stays alive"}})
}

// answer is one answer of the environment to a Read call.
type answer struct {
	n   int   // bytes to deliver
	err error // and the error that goes with them
}

// scriptReader answers Read calls from a script; after its end it delivers
// the rest and EOF.
type scriptReader struct {
	src    string
	script []answer
	calls  int
}

func (s *scriptReader) Read(p []byte) (int, error) {
	s.calls++
	if s.calls > 1000000 {
		panic("reads without end")
	}
	if len(s.script) == 0 {
		if s.src == "" {
			return 0, io.EOF
		}
		n := copy(p, s.src)
		s.src = s.src[n:]
		return n, nil
	}
	a := s.script[0]
	n := a.n
	if n > len(s.src) {
		n = len(s.src)
	}
	if n > len(p) {
		n = len(p)
		s.script[0].n -= n
		copy(p, s.src[:n])
		s.src = s.src[n:]
		return n, nil
	}
	s.script = s.script[1:]
	copy(p, s.src[:n])
	s.src = s.src[n:]
	return n, a.err
}

// errs are errors a reader or writer may give.
var errs = []error{errBoom, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, os.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist, os.ErrPermission, os.ErrInvalid, bufio.ErrBufferFull, bufio.ErrInvalidUnreadRune, bufio.ErrTooLong, context.Canceled, context.DeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.EIO, syscall.ECONNRESET, syscall.EISDIR, syscall.EBADF,
	&os.PathError{Op: "read", Path: "a.clj", Err: syscall.EIO}, &os.PathError{Op: "read", Path: "a", Err: os.ErrClosed}, os.NewSyscallError("read", syscall.EINTR), errors.New("EOF"), errors.New("unexpected EOF"), errors.New(" "), errors.New("%s"), fmt.Errorf("a: %w", io.ErrUnexpectedEOF), tempErr{}, gzip.ErrChecksum, net.ErrClosed}

// A tempErr says of itself that it will go away.
type tempErr struct{}

func (tempErr) Error() string   { return "try again" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

var errBoom = errors.New("boom %d 100%")

func parseFrom(r io.Reader, opts parse.ParseOpts) (t *parse.Tree, err error) {
	defer func() {
		if e := recover(); e != nil {
			t, err = nil, fmt.Errorf("PANIC: %v", e)
		}
	}()
	return parse.Reader(r, impl.Name, opts)
}

// sameResult compares two parse results completely.
func sameResult(t1 *parse.Tree, err1 error, t2 *parse.Tree, err2 error) string {
	if (err1 == nil) != (err2 == nil) || err1 != nil && err1.Error() != err2.Error() {
		return fmt.Sprintf("error %v, want %v", err1, err2)
	}
	if err1 != nil {
		return ""
	}
	a, e1 := impl.Convert(t1.Roots)
	b, e2 := impl.Convert(t2.Roots)
	if e1 != nil || e2 != nil {
		return fmt.Sprint(e1, e2)
	}
	return impl.SameTreePos(a, b)
}

// scripts enumerates all answer sequences that deliver n bytes in chunks of
// 1, 2, 3 or all, with up to one empty read before each chunk (budget many in
// total), the last chunk with or without EOF.
func scripts(n int, empties int, f func(s []answer)) {
	var rec func(left int, empties int, s []answer)
	rec = func(left, empties int, s []answer) {
		if left == 0 {
			f(s)
			if len(s) > 0 {
				last := s[len(s)-1]
				f(append(append([]answer{}, s[:len(s)-1]...), answer{last.n, io.EOF}))
			}
			return
		}
		if empties > 0 && (len(s) == 0 || s[len(s)-1].n > 0) {
			rec(left, empties-1, append(append([]answer{}, s...), answer{0, nil}))
		}
		for k := 1; k <= 3 && k < left; k++ {
			rec(left-k, empties, append(append([]answer{}, s...), answer{k, nil}))
		}
		rec(0, empties, append(append([]answer{}, s...), answer{left, nil}))
	}
	rec(n, empties, nil)
}

// judgeFault injects a read error at an offset in the given ways.
func judgeFault(c *mc.Case, src string, off int, wantFull *parse.Tree, fullErr error) {
	// If the text before the fault is malformed already, that may be the error.
	_, preErr := ref.Parse(src[:off])
	early := preErr != nil && preErr.Msg != "unexpected end" && preErr.Msg != "unterminated string" && preErr.Msg != "incomplete character literal"
	for way := 0; way < 5; way++ {
		var s []answer
		switch way {
		case 0: // all bytes, then the error
			s = []answer{{off, nil}, {0, errBoom}}
		case 1: // the error together with the bytes
			s = []answer{{off, errBoom}}
		case 2: // byte by byte
			for i := 0; i < off; i++ {
				s = append(s, answer{1, nil})
			}
			s = append(s, answer{0, errBoom})
		case 3: // the error is followed by EOF, as with a closed connection
			s = []answer{{off, nil}, {0, errBoom}, {0, io.EOF}, {0, io.EOF}}
		case 4: // unexpected EOF is an error like any other
			s = []answer{{off, nil}, {0, io.ErrUnexpectedEOF}}
		}
		boom := errBoom
		if way == 4 {
			boom = io.ErrUnexpectedEOF
		}
		t, err := parseFrom(&scriptReader{src: src, script: s}, impl.Full)
		c.Trans(1)
		switch {
		case isPanic(err):
			c.Fail(q(src), "read error after %d bytes (way %d): %v", off, way, err)
		case err == nil:
			c.Fail(q(src), "read error after %d bytes (way %d): parsing succeeded", off, way)
		case t != nil:
			c.Fail(q(src), "read error after %d bytes (way %d): a tree and an error", off, way)
		case !strings.Contains(err.Error(), boom.Error()) && !early:
			c.Fail(q(src), "read error after %d bytes (way %d): error %q doesn't convey it", off, way, err)
		}
		if c.Failed() {
			return
		}
		c.Outcome(err.Error())
	}
}

func judgeArrival(c *mc.Case, src string, empties int) {
	want, werr := impl.Parse(src, impl.Full)
	c.States(1)
	n := 0
	scripts(len(src), empties, func(s []answer) {
		if c.Failed() {
			return
		}
		rd := &scriptReader{src: src, script: append([]answer{}, s...)}
		t, err := parseFrom(rd, impl.Full)
		n++
		if d := sameResult(t, err, want, werr); d != "" {
			c.Fail(q(src), "arriving as %v: %s", s, d)
		}
	})
	c.Trans(n)
	if n > 1 {
		c.Nontrivial(1)
	}
	for off := 0; off <= len(src) && !c.Failed(); off++ {
		judgeFault(c, src, off, want, werr)
	}
	if c.WantSample() {
		c.Sample(map[string]interface{}{"source": short(src), "arrivals": n, "fault_offsets": len(src) + 1})
	}
}

func runC06(r *mc.Run) {
	n := 2
	if r.Thorough() {
		n = 3
	}
	r.Seqs("tokens", "every arrival of all token sequences (all chunkings with up to 1 empty read, errors at all offsets)", tokens, 0, n, func(c *mc.Case, parts []string) {
		judgeArrival(c, strings.Join(parts, ""), 1)
	})
	multi := []string{"é", "日", "\U0001F600", "\n", "\"", "\\", "a", "\xff", "\x00", "\x1a"}
	r.Seqs("runes", "every arrival of multi-byte and invalid text", multi, 1, n, func(c *mc.Case, parts []string) {
		judgeArrival(c, strings.Join(parts, ""), 2)
	})
	// Longer texts: uniform chunks, one cut, two cuts, errors everywhere.
	r.Space("corpus", "corpus texts: all uniform chunk sizes, all single cuts (with an empty read), errors at all offsets", int64(len(corpus)), func(c *mc.Case) {
		src := corpus[c.I]
		want, werr := impl.Parse(src, impl.Full)
		c.States(1)
		c.Nontrivial(1)
		try := func(s []answer) {
			if c.Failed() {
				return
			}
			t, err := parseFrom(&scriptReader{src: src, script: s}, impl.Full)
			c.Trans(1)
			if d := sameResult(t, err, want, werr); d != "" {
				c.Fail(q(src), "arriving as %v: %s", s, d)
			}
		}
		for k := 1; k <= len(src); k++ {
			var s []answer
			for i := 0; i < len(src); i += k {
				s = append(s, answer{k, nil})
			}
			s[len(s)-1].n = len(src) - (len(s)-1)*k
			try(append([]answer{}, s...))
			s[len(s)-1].err = io.EOF
			try(s)
		}
		for i := 0; i <= len(src); i++ {
			try([]answer{{i, nil}, {0, nil}, {0, nil}, {len(src) - i, io.EOF}})
			judgeFault(c, src, i, want, werr)
		}
	})
	// Every kind of error.
	errTexts := append(append([]string{}, tokens...), "a b", "(a\n", "(a) ", "(a)\n", "a ;c", "a ;c\n", "\"s", "#_", "é\n", "\\newline\n", "\n\n", " \n ", "(defn f [x]\n  x)\n")
	r.Space("errors", "every kind of error at all offsets of tokens and short texts, by itself, with data and followed by the end", mc.Size(len(errs), len(errTexts), 3, 2), func(c *mc.Case) {
		d := c.Dims(len(errs), len(errTexts), 3, 2)
		boom, src := errs[d[0]], errTexts[d[1]]
		opts := []parse.ParseOpts{impl.Full, 0}[d[3]]
		for off := 0; off <= len(src); off++ {
			_, preErr := ref.Parse(src[:off])
			early := preErr != nil && preErr.Msg != "unexpected end" && preErr.Msg != "unterminated string" && preErr.Msg != "incomplete character literal"
			s := [][]answer{{{off, nil}, {0, boom}}, {{off, boom}}, {{off, nil}, {0, boom}, {0, io.EOF}, {0, io.EOF}}}[d[2]]
			t, err := parseFrom(&scriptReader{src: src, script: s}, opts)
			c.Trans(1)
			switch {
			case isPanic(err) || err == nil || t != nil:
				c.Fail(q(src), "read error %q (%T) after %d bytes: the result is %v, %v", boom, boom, off, t, err)
			case !early && !strings.Contains(err.Error(), boom.Error()):
				c.Fail(q(src), "read error %q (%T) after %d bytes: error %q doesn't convey it", boom, boom, off, err)
			}
		}
		c.States(1)
		c.Nontrivial(1)
	})
	// Buffer boundaries: long texts whose interesting token straddles a read.
	fillers := fillers
	if !r.Thorough() {
		fillers = fillers[:1]
	}
	r.Space("boundary", "tokens around the buffer boundary, cut at every position there", mc.Size(len(scaleTokens), len(fillers), 15), func(c *mc.Case) {
		d := c.Dims(len(scaleTokens), len(fillers), 15)
		src := fillers[d[1]](4086+d[2]) + scaleTokens[d[0]] + " z"
		want, werr := impl.Parse(src, impl.Full)
		c.States(1)
		c.Nontrivial(1)
		for cut := 4086; cut <= len(src); cut++ {
			for _, s := range [][]answer{{{cut, nil}}, {{cut, nil}, {0, nil}, {1, nil}}} {
				t, err := parseFrom(&scriptReader{src: src, script: s}, impl.Full)
				c.Trans(1)
				if d := sameResult(t, err, want, werr); d != "" {
					c.Fail(q(src), "cut at %d: %s", cut, d)
					return
				}
			}
			judgeFault(c, src, cut, want, werr)
			if c.Failed() {
				return
			}
		}
	})
	// Every kind of reader, which may have been read from before.
	prefixes := []string{"", "x", "(a\n", ")\n", "\"", strings.Repeat("y\n", 2100)}
	readTexts := append(append([]string{}, errTexts...), append(corpus[:len(corpus):len(corpus)], strings.Repeat("(a)\n", 1100)+"b", strings.Repeat("é", 2050)+" )")...)
	r.Space("readers", "every kind of reader, some of which has been read before", mc.Size(len(readTexts), len(prefixes), len(readers)), func(c *mc.Case) {
		d := c.Dims(len(readTexts), len(prefixes), len(readers))
		src, pre, kind := readTexts[d[0]], prefixes[d[1]], readers[d[2]]
		rd, done := kind.make(pre + src)
		defer done()
		if _, err := io.ReadFull(rd, make([]byte, len(pre))); err != nil {
			panic(err)
		}
		want, werr := impl.Parse(src, impl.Full)
		t, err := parseFrom(rd, impl.Full)
		c.States(1)
		c.Trans(1)
		c.Nontrivial(1)
		if d := sameResult(t, err, want, werr); d != "" {
			c.Fail(q(src), "from a %s after %d bytes have been read: %s", kind.name, len(pre), d)
		}
	})
	// Files.
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "files-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var texts []string
	texts = append(texts, corpus...)
	for _, n := range []int{4095, 4096, 4097, 65536, 100000} {
		texts = append(texts, strings.Repeat("(a)\n", n/4)+"b", "\""+strings.Repeat("é", n/2), strings.Repeat("(a)\n", n/4)+")")
	}
	// Starts that some programs treat specially when they read a file.
	for _, start := range fileStarts() {
		for _, body := range []string{"", "a", "(a\nb) ;c\n", "\n)", "\"", "\r\nb", "#!x\na"} {
			texts = append(texts, start+body)
		}
	}
	for _, end := range []string{"\x1a", "\x00", "\r", "\n\n", "\x04", "\ufeff", "\n\x1a\n"} {
		texts = append(texts, "a"+end, "(a)\n"+end, "\"a\""+end, ";c"+end)
	}
	n = 1
	if r.Thorough() {
		n = 2
	}
	for l := 0; l <= n; l++ {
		for i := int64(0); i < mc.Pow(len(tokens), l); i++ {
			var b strings.Builder
			for _, d := range mc.Digits(i, len(tokens), l) {
				b.WriteString(tokens[d])
			}
			texts = append(texts, b.String(), b.String()+"\n")
		}
	}
	r.Space("files", "parsing a file against parsing its contents, under all options", mc.Size(len(texts), 8), func(c *mc.Case) {
		d := c.Dims(len(texts), 8)
		src := texts[d[0]]
		path := filepath.Join(dir, fmt.Sprintf("f%d-%d.clj", c.I, c.Worker))
		if err := os.WriteFile(path, []byte(src), 0600); err != nil {
			return
		}
		defer os.Remove(path)
		c.States(1)
		c.Trans(2)
		c.Nontrivial(1)
		t, err := parse.File(path, parse.ParseOpts(d[1]))
		t2, err2 := parse.Reader(strings.NewReader(src), path, parse.ParseOpts(d[1]))
		if d := sameResult(t, err, t2, err2); d != "" {
			c.Fail(q(src), "as a file: %s", d)
		}
		if err == nil {
			if d := nameDiff(t.Roots, path); d != "" {
				c.Fail(q(src), "as a file: %s", d)
			}
		}
	})
	kinds := []string{"fifo", "link", "link to fifo", "link to link", "hard link", "relative"}
	r.Space("special", "parsing named pipes and links against parsing what they deliver", mc.Size(len(kinds), len(texts)), func(c *mc.Case) {
		d := c.Dims(len(kinds), len(texts))
		src := texts[d[1]]
		sub := filepath.Join(dir, fmt.Sprintf("s%d-%d", c.I, c.Worker))
		if err := os.Mkdir(sub, 0700); err != nil {
			return
		}
		defer os.RemoveAll(sub)
		path, real := filepath.Join(sub, "a"), filepath.Join(sub, "b")
		var err error
		switch kinds[d[0]] {
		case "fifo":
			real = path
		case "link to link":
			os.Symlink("b", filepath.Join(sub, "c"))
			err = os.Symlink("c", path)
		case "hard link":
			os.WriteFile(real, []byte(src), 0600)
			err = os.Link(real, path)
		case "relative":
			var wd string
			wd, err = os.Getwd()
			path, _ = filepath.Rel(wd, real)
		default:
			err = os.Symlink("b", path)
		}
		if err != nil {
			return
		}
		written := make(chan bool)
		if strings.HasSuffix(kinds[d[0]], "fifo") {
			if err := syscall.Mkfifo(real, 0600); err != nil {
				return
			}
			go func() {
				if f, err := os.OpenFile(real, os.O_WRONLY, 0); err == nil {
					f.WriteString(src)
					f.Close()
				}
				close(written)
			}()
		} else {
			os.WriteFile(real, []byte(src), 0600)
			close(written)
		}
		c.States(1)
		c.Trans(2)
		c.Nontrivial(1)
		t, err := parse.File(path, impl.Full)
		t2, err2 := parse.Reader(strings.NewReader(src), path, impl.Full)
		if d1 := sameResult(t, err, t2, err2); d1 != "" {
			c.Fail(q(src), "as a %s: %s", kinds[d[0]], d1)
		}
		select {
		case <-written:
		case <-time.After(10 * time.Second):
			if f, err := os.OpenFile(real, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
				f.Close() // let the writer go
			}
		}
	})
	r.Space("badfiles", "a missing file, a directory", 2, func(c *mc.Case) {
		path := filepath.Join(dir, "missing")
		if c.I == 1 {
			path = dir
		}
		c.States(1)
		c.Trans(1)
		t, err := parse.File(path, impl.Full)
		if err == nil || t != nil {
			c.Fail(path, "parsing it as a file: tree %v, error %v", t != nil, err)
		}
	})
}

// readers are ways to make a reader that delivers a text.
var readers = []struct {
	name string
	make func(text string) (r io.Reader, done func())
}{
	{"strings.Reader", func(t string) (io.Reader, func()) { return strings.NewReader(t), func() {} }},
	{"bytes.Reader", func(t string) (io.Reader, func()) { return bytes.NewReader([]byte(t)), func() {} }},
	{"bytes.Buffer", func(t string) (io.Reader, func()) { return bytes.NewBufferString(t), func() {} }},
	{"bufio.Reader", func(t string) (io.Reader, func()) { return bufio.NewReader(strings.NewReader(t)), func() {} }},
	{"small bufio.Reader", func(t string) (io.Reader, func()) { return bufio.NewReaderSize(strings.NewReader(t), 16), func() {} }},
	{"large bufio.Reader", func(t string) (io.Reader, func()) {
		return bufio.NewReaderSize(strings.NewReader(t), 1<<16), func() {}
	}},
	{"bufio.ReadWriter", func(t string) (io.Reader, func()) {
		return bufio.NewReadWriter(bufio.NewReader(strings.NewReader(t)), bufio.NewWriter(io.Discard)), func() {}
	}},
	{"io.SectionReader", func(t string) (io.Reader, func()) {
		return io.NewSectionReader(strings.NewReader("((("+t+")))"), 3, int64(len(t))), func() {}
	}},
	{"io.LimitedReader", func(t string) (io.Reader, func()) {
		return io.LimitReader(strings.NewReader(t+" )))"), int64(len(t))), func() {}
	}},
	{"io.MultiReader", func(t string) (io.Reader, func()) {
		return io.MultiReader(strings.NewReader(t[:len(t)/2]), strings.NewReader(""), strings.NewReader(t[len(t)/2:])), func() {}
	}},
	{"io.TeeReader", func(t string) (io.Reader, func()) { return io.TeeReader(strings.NewReader(t), io.Discard), func() {} }},
	{"file", func(t string) (io.Reader, func()) {
		f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "reader-")
		if err != nil {
			panic(err)
		}
		f.WriteString(t)
		f.Seek(0, io.SeekStart)
		return f, func() { f.Close(); os.Remove(f.Name()) }
	}},
	{"file open for appending", func(t string) (io.Reader, func()) {
		f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "reader-")
		if err != nil {
			panic(err)
		}
		f.WriteString(t)
		f.Close()
		f, err = os.OpenFile(f.Name(), os.O_RDWR|os.O_APPEND, 0)
		if err != nil {
			panic(err)
		}
		return f, func() { f.Close(); os.Remove(f.Name()) }
	}},
	{"pipe", func(t string) (io.Reader, func()) {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		go func() { io.WriteString(w, t); w.Close() }()
		return r, func() { r.Close() }
	}},
	{"io.PipeReader", func(t string) (io.Reader, func()) {
		r, w := io.Pipe()
		go func() { io.WriteString(w, t); w.Close() }()
		return r, func() { r.Close() }
	}},
	{"net.Conn", func(t string) (io.Reader, func()) {
		r, w := net.Pipe()
		go func() { io.WriteString(w, t); w.Close() }()
		return r, func() { r.Close() }
	}},
	{"gzip.Reader", func(t string) (io.Reader, func()) {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		io.WriteString(w, t)
		w.Close()
		r, err := gzip.NewReader(&b)
		if err != nil {
			panic(err)
		}
		return r, func() {}
	}},
}

// fileStarts returns every single byte, and the marks that files may start
// with.
func fileStarts() []string {
	out := []string{"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\xef\xbb", "\xff\xfe\x00\x00", "\x00\x00\xfe\xff", "\xef\xbb\xbf\xef\xbb\xbf", "#!/usr/bin/env bb\n", "#!", "#!\n",
		"#! a\r\n", "\n#!/bin/sh\n", "#!a\n#!b\n", "\x1f\x8b\x08", "PK\x03\x04", ";; -*- mode: clojure -*-\n", "\r\n\r\n", "%PDF", "\xef\xbb\xbf#!x\n", ";; coding: latin-1\n\xe9"}
	for b := 0; b < 256; b++ {
		out = append(out, string([]byte{byte(b)}))
	}
	return out
}

// settle waits until at most n goroutines are left. It reports how many there
// are.
func settle(n int, limit time.Duration) int {
	t0 := time.Now()
	for i := 0; ; i++ {
		g := runtime.NumGoroutine()
		if g <= n || time.Since(t0) > limit {
			return g
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

func stacks() string {
	buf := make([]byte, 1<<16)
	s := string(buf[:runtime.Stack(buf, true)])
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "goclj/parse") {
			return strings.ReplaceAll(firstN(g, 300), "\n", " | ")
		}
	}
	return ""
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// gatedReader delivers a prefix, then blocks until it is released, and then
// delivers the rest.
type gatedReader struct {
	src     string
	at      int
	release chan struct{}
	err     error
	off     int
}

func (g *gatedReader) Read(p []byte) (int, error) {
	if g.off < g.at {
		n := copy(p, g.src[g.off:g.at])
		g.off += n
		return n, nil
	}
	if g.off == g.at {
		<-g.release
	}
	if g.err != nil {
		return 0, g.err
	}
	if g.off >= len(g.src) {
		return 0, io.EOF
	}
	n := copy(p, g.src[g.off:])
	g.off += n
	return n, nil
}

// leaks runs f on each text and reports whether goroutines stay.
func leakBatch(c *mc.Case, texts []string, how string, run func(src string)) {
	base := runtime.NumGoroutine()
	for _, src := range texts {
		run(src)
		c.Trans(1)
		c.Valid(1)
	}
	c.States(len(texts))
	if settle(base, 3*time.Second) <= base {
		c.Outcome("settled")
		return
	}
	// Which one?
	for _, src := range texts {
		base := runtime.NumGoroutine()
		for i := 0; i < 3; i++ {
			run(src)
		}
		if n := settle(base, 100*time.Millisecond); n >= base+3 {
			if n = settle(base, 3*time.Second); n >= base+3 {
				c.Fail(q(src), "%s: 3 parses left %d goroutines behind: %s", how, n-base, stacks())
				return
			}
		}
	}
	c.Fail(fmt.Sprintf("texts %q ...", texts[0]), "%s: %d parses left goroutines behind: %s", how, len(texts), stacks())
}

func runC07(r *mc.Run) {
	runAll := func(src string) {
		for opts := parse.ParseOpts(0); opts < 8; opts++ {
			if len(src) > 4 && opts != impl.Full && opts != 6 {
				continue
			}
			impl.Parse(src, opts)
		}
	}
	batch := func(name, what string, texts []string, size int, how string, run func(string)) {
		var batches [][]string
		for len(texts) > 0 {
			n := size
			if n > len(texts) {
				n = len(texts)
			}
			batches = append(batches, texts[:n])
			texts = texts[n:]
		}
		mc.List(r, name, what, batches, func(c *mc.Case, b []string) {
			if c.I == 0 {
				c.Sample(map[string]interface{}{"batch": len(b), "first": short(b[0]), "last": short(b[len(b)-1])})
			}
			leakBatch(c, b, how, run)
		})
	}
	var texts []string
	n := 3
	if r.Thorough() {
		n = 4
	}
	for l := 0; l <= n; l++ {
		for i := int64(0); i < mc.Pow(len(tokens), l); i++ {
			var b strings.Builder
			for _, d := range mc.Digits(i, len(tokens), l) {
				b.WriteString(tokens[d])
			}
			texts = append(texts, b.String())
		}
	}
	batch("tokens", "all token sequences, in batches", texts, 500, "in-memory reader", runAll)
	texts = nil
	for l := 0; l <= n-1; l++ {
		for i := int64(0); i < mc.Pow(len(lexAlpha), l); i++ {
			var b strings.Builder
			for _, d := range mc.Digits(i, len(lexAlpha), l) {
				b.WriteString(lexAlpha[d])
			}
			texts = append(texts, b.String(), b.String()+" (a b c) d")
		}
	}
	batch("chars", "all short strings, alone and before more text", texts, 500, "in-memory reader", runAll)
	texts = nil
	for _, s := range corpus {
		for i := 0; i <= len(s); i++ {
			texts = append(texts, s[:i], s[:i]+")"+s[i:], s[:i]+"#<"+s[i:], s[:i]+"\\"+s[i:])
		}
	}
	batch("corpus", "all truncations of corpus texts and insertions of errors at every point", texts, 500, "in-memory reader", runAll)
	// Faults and blocked reads: few texts, every point.
	var faulty []string
	for _, s := range corpus {
		if len(s) <= 60 {
			faulty = append(faulty, s, s+")", "#< "+s)
		}
	}
	batch("faults", "a read error at every offset of short corpus texts", faulty, 10, "failing reader", func(src string) {
		for off := 0; off <= len(src); off++ {
			parseFrom(&scriptReader{src: src, script: []answer{{off, nil}, {0, errBoom}}}, impl.Full)
		}
	})
	batch("blocked", "a read that blocks at every offset, released when the parse has returned or needs it", faulty, 10, "blocking reader", func(src string) {
		for off := 0; off <= len(src); off++ {
			g := &gatedReader{src: src, at: off, release: make(chan struct{})}
			done := make(chan struct{})
			go func() {
				parseFrom(g, impl.Full)
				close(done)
			}()
			early := preMalformed(src[:off])
			if early {
				// The parse should return without the blocked read, or
				// at least once the read is over.
				select {
				case <-done:
				case <-time.After(5 * time.Millisecond):
				}
			}
			close(g.release)
			<-done
		}
	})
	var big []string
	for _, n := range []int{100, 1000, 5000, 20000} {
		big = append(big, strings.Repeat("(a) ", n)+")", strings.Repeat("(a) ", n)+") "+strings.Repeat("(a) ", n), strings.Repeat("(", n), "#( #( "+strings.Repeat("b ", n))
	}
	batch("big", "errors in the middle of long texts", big, 4, "in-memory reader", runAll)
	// Files: none stays open, whether it could be parsed or not.
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "open-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var contents []string
	for _, s := range corpus {
		if len(s) > 60 && !r.Thorough() {
			continue
		}
		for i := 0; i <= len(s); i++ {
			contents = append(contents, s[:i], s[:i]+")"+s[i:])
		}
	}
	contents = append(contents, big...)
	contents = append(contents, strings.Repeat("(", 200000), "\"")
	r.Space("files", "files with every prefix of short corpus texts and errors at every point, links to them, and names of directories", mc.Size(len(contents), 3), func(c *mc.Case) {
		d := c.Dims(len(contents), 3)
		src := contents[d[0]]
		path := filepath.Join(dir, fmt.Sprintf("f%d", c.I))
		name := path
		switch d[1] {
		case 0, 1:
			if err := os.WriteFile(path, []byte(src), 0600); err != nil {
				panic(err)
			}
			if d[1] == 1 {
				name = path + "-link"
				if err := os.Symlink(path, name); err != nil {
					panic(err)
				}
			}
		case 2:
			if d[0] > 0 {
				return
			}
			if err := os.Mkdir(path, 0700); err != nil {
				panic(err)
			}
		}
		defer os.Remove(path)
		if name != path {
			defer os.Remove(name)
		}
		base := runtime.NumGoroutine()
		_, err := parse.File(name, impl.Full)
		c.States(1)
		c.Trans(1)
		c.Valid(1)
		if err != nil {
			c.Outcome("refused")
		} else {
			c.Outcome("accepted")
		}
		if open := openOf(path); open > 0 {
			c.Fail(q(src), "after parse.File of it, the file is still open (%v)", err)
			return
		}
		if n := settle(base, 3*time.Second); n > base {
			c.Fail(q(src), "after parse.File of it, %d goroutines are left", n-base)
		}
	})
	reps := []int{1, 10, 100, 1000}
	if r.Thorough() {
		reps = append(reps, 20000)
	}
	mc.List(r, "many", "many failing parses in one process", reps, func(c *mc.Case, n int) {
		texts := make([]string, n)
		for i := range texts {
			texts[i] = "(a) ) (b)"
		}
		leakBatch(c, texts, "in-memory reader", runAll)
	})
}

func preMalformed(s string) bool {
	_, err := ref.Parse(s)
	return err != nil && !err.AtEnd
}

// openOf counts the descriptors of this process that are open on path.
func openOf(path string) int {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	n := 0
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && to == path {
			n++
		}
	}
	return n
}
