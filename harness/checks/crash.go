package checks

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"

	"verif/mc"
	"verif/ref"
)

func init() {
	add(&mc.Check{ID: "C30", Run: runC30, Level: "fault_enumeration",
		Rule: "a run in which a file-system call fails, is cut short or never happens, or an input can't be read or parsed",
		Assumptions: []string{
			"the process is interrupted, not the machine: what a completed call wrote is there afterwards",
			"calls on files below the working directory are enumerated as the kernel sees them; other calls succeed"}})
}

// A rewrite is a run of the tool whose file-system calls are enumerated.
type rewrite struct {
	name   string
	args   []string
	files  map[string]string // in the working directory
	write  bool
	links  map[string]string // names to what they lead to
	normal *string           // the output without faults
}

func rewrites(thorough bool) []rewrite {
	grows, shrinks, good := "(a\nb)", "(a)\n\n\n\n(b  c )\n\n", "(ok)\n"
	big := strings.Repeat("(defn foo\n  [x]   (+ x 1))\n", 1000)
	list := []rewrite{
		{"a file that grows", []string{"-w", "a.clj"}, map[string]string{"a.clj": grows, "z.clj": grows}, true, nil, nil},
		{"a file that shrinks", []string{"-w", "a.clj"}, map[string]string{"a.clj": shrinks, "z.clj": grows}, true, nil, nil},
		{"two files", []string{"-w", "a.clj", "b.clj"}, map[string]string{"a.clj": grows, "b.clj": shrinks, "z.clj": grows}, true, nil, nil},
		{"a directory", []string{"-l", "-w", "d"}, map[string]string{"d/a.clj": grows, "d/b.clj": good, "d/e/c.clj": shrinks, "d/x.txt": grows}, true, nil, nil},
		{"a good file", []string{"-w", "a.clj"}, map[string]string{"a.clj": good}, true, nil, nil},
		{"reading", []string{"a.clj", "b.clj"}, map[string]string{"a.clj": grows, "b.clj": shrinks}, false, nil, nil},
		{"listing", []string{"-l", "a.clj"}, map[string]string{"a.clj": grows}, false, nil, nil},
		{"a large file", []string{"-w", "a.clj"}, map[string]string{"a.clj": big}, true, nil, nil},
		{"a file of more than a megabyte", []string{"-w", "a.clj"}, map[string]string{"a.clj": "(a  b)\n" + strings.Repeat("; a line\n", 140000), "b.clj": good}, true, nil, nil},
		{"a link to a file", []string{"-w", "a.clj"}, map[string]string{"d/x.clj": shrinks, "z.clj": grows}, true, map[string]string{"a.clj": "d/x.clj"}, nil},
		{"a link in a directory to a file", []string{"-w", "t"}, map[string]string{"d/x.clj": grows, "z.clj": grows}, true, map[string]string{"t/a.clj": "../l/x.clj", "l": "d"}, nil},
	}
	if thorough {
		list = append(list,
			rewrite{"three files", []string{"-w", "a.clj", "b.clj", "c.clj"}, map[string]string{"a.clj": shrinks, "b.clj": good, "c.clj": grows}, true, nil, nil},
			rewrite{"a file twice", []string{"-w", "a.clj", "./a.clj"}, map[string]string{"a.clj": shrinks}, true, nil, nil},
			rewrite{"a file to be emptied", []string{"-w", "a.clj"}, map[string]string{"a.clj": "\n \n"}, true, nil, nil})
	}
	return list
}

// errnos are the ways a call can fail.
func errnos(op fsOp) []syscall.Errno {
	list := []syscall.Errno{syscall.EIO, syscall.EINTR, syscall.EPERM}
	if op.Write {
		list = append(list, syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG)
	}
	if strings.HasPrefix(op.Call, "open") || op.Call == "unlink" || op.Call == "rename" {
		list = append(list, syscall.EACCES, syscall.EROFS, syscall.ENOENT)
	}
	return list
}

// faultsAt lists everything that can happen to the i'th call.
func faultsAt(i int, op fsOp, size int, all bool) (list []fault) {
	list = append(list, fault{at: i, act: actKill})
	if op.Write {
		list = append(list, fault{at: i, act: actKillAfter})
	}
	for _, e := range errnos(op) {
		list = append(list, fault{at: i, act: actError, errno: e})
	}
	var cuts []int
	n := op.N
	switch op.Call {
	case "write":
		if all && n <= 64 {
			for k := 1; k < n; k++ {
				cuts = append(cuts, k)
			}
		} else {
			cuts = append(cuts, 1, n/2, n-1, 4096)
		}
		list = append(list, fault{at: i, act: actFull})
	case "read":
		if n > size {
			n = size + 1
		}
		cuts = append(cuts, 1, n/2, n-1)
	}
	sort.Ints(cuts)
	for j, k := range cuts {
		if k <= 0 || k >= n || j > 0 && cuts[j-1] == k {
			continue
		}
		list = append(list, fault{at: i, act: actShort, k: k})
		if op.Call == "write" {
			list = append(list, fault{at: i, act: actKillAfter, k: k}, fault{at: i, act: actFull, k: k})
		}
	}
	return list
}

// judgeCrash makes one run with faults and judges what is on disk afterwards.
func judgeCrash(c *mc.Case, w rewrite, faults []fault) traced {
	files := map[string]string{}
	for name, text := range w.files {
		files["w/"+name] = text
	}
	dir, err := scratch(files, nil)
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	for name, to := range w.links {
		os.MkdirAll(path.Dir(path.Join(dir, "w", name)), 0o755)
		if err := os.Symlink(to, path.Join(dir, "w", name)); err != nil {
			panic(err)
		}
	}
	res, err := trace(dir, w.args, faults)
	if err != nil {
		panic("tracing cljfmt: " + err.Error())
	}
	c.States(1)
	c.Trans(1)
	c.Nontrivial(1)
	got, _ := snapshot(dir)
	c.Outcome(fmt.Sprint(res.exit, got))
	if len(faults) > 0 && c.I%37 == 5 && len(faults) == 1 {
		c.Sample(fmt.Sprintf("%s: %v; exit status %d", w.name, faults, res.exit))
	}
	var calls []string
	for i, op := range res.ops {
		calls = append(calls, fmt.Sprintf("%d %s", i, op))
	}
	desc := func() string {
		return fmt.Sprintf("%s (%q); %v; the calls are %s", w.name, w.args, faults, strings.ReplaceAll(strings.Join(calls, ", "), dir, "%"))
	}
	leads := map[string]string{} // where links to files lead
	for name, to := range w.links {
		to = strings.Replace(path.Join(path.Dir(name), to), "l/", "d/", 1)
		if _, ok := w.files[to]; ok {
			leads[name] = to
		}
		if now := got["w/"+name]; now != "-> "+w.links[name] {
			c.Fail(desc(), "exit status %d; %s, a link, is now %s", res.exit, name, q(now))
		}
	}
	touched := map[string]bool{}
	failing := ""   // the file that couldn't be read
	failed := false // something couldn't be written
	for i, op := range res.ops {
		if op.Write || op.Call == "close" {
			touched[op.Path], touched[op.Path2] = true, true
			touched[leads[op.Path]], touched[strings.Replace(op.Path, "l/", "d/", 1)] = true, true
		}
		for _, f := range faults {
			if f.at == i && f.act == actError && f.errno != syscall.EINTR {
				switch {
				case op.Call == "read" || op.Call == "open":
					failing = op.Path
				case op.Call == "stat" && (w.normal == nil || res.stdout != *w.normal):
					// (The file may have been read all the same.)
					failing = op.Path
				}
				failed = true
			}
		}
	}
	for name, text := range w.files {
		out, _ := formatText(text)
		now, there := got["w/"+name]
		if now == text && there {
			continue
		}
		if !w.write || out == text || !touched[name] {
			c.Fail(desc(), "exit status %d; %s is %s, but was %s and should stay like that", res.exit, name, q(now), q(text))
			continue
		}
		if there && now == out {
			continue
		}
		// It must be next to it.
		safe := false
		for other, t := range got {
			if path.Dir(other) == path.Dir("w/"+name) && !strings.HasSuffix(other, "/") && w.files[strings.TrimPrefix(other, "w/")] == "" {
				safe = safe || t == text || t == out
			}
		}
		if !safe {
			c.Fail(desc(), "exit status %d; %s is %s (%v), and neither %s nor %s is next to it", res.exit, name, q(now), there, q(text), q(out))
		}
	}
	if failing != "" {
		if to := leads[failing]; to != "" {
			failing = to
		}
		if _, isFile := w.files[failing]; isFile && (res.exit == 0 || res.exit > 0 && res.stderr == "") {
			c.Fail(desc(), "exit status %d and message %q although %s couldn't be read", res.exit, res.stderr, failing)
		}
	}
	if res.exit > 0 && res.stderr == "" {
		c.Fail(desc(), "exit status %d without a message", res.exit)
	}
	if res.exit == 0 {
		for name, text := range w.files {
			out, _ := formatText(text)
			chosen := w.write && strings.HasSuffix(name, ".clj") && name != "z.clj"
			if chosen && got["w/"+name] != out {
				c.Fail(desc(), "exit status 0, but %s is %s, not %s", name, q(got["w/"+name]), q(out))
			}
		}
		if !failed {
			// Nothing is left behind.
			want := map[string]string{}
			for name := range w.files {
				want["w/"+name] = got["w/"+name]
			}
			for name := range w.links {
				want["w/"+name] = got["w/"+name]
			}
			if d := changed(got, withDirs(want)); d != "" {
				c.Fail(desc(), "exit status 0; %s", d)
			}
		}
	}
	return res
}

func runC30(r *mc.Run) {
	// Inputs that can't be formatted, at every position.
	var broken []string
	for _, s := range append(append([]string{}, corpus...), switchTexts...) {
		for i := 0; i <= len(s); i++ {
			if _, err := ref.Parse(s[:i]); err != nil {
				broken = append(broken, s[:i])
			}
		}
		broken = append(broken, s+")", s+"\"", s+"\\", s+"#", "]"+s)
	}
	flagSets := [][]string{nil, {"-l"}, {"-w"}, {"-l", "-w"}}
	few := 16
	if r.Thorough() {
		few = 1
	}
	r.Space("broken", "every kind of malformed file at every position, in every mode", mc.Size((len(broken)+few-1)/few, 3, len(flagSets)), func(c *mc.Case) {
		d := c.Dims((len(broken)+few-1)/few, 3, len(flagSets))
		text := broken[d[0]*few]
		if _, err := ref.Parse(text); err == nil {
			return
		}
		m := modeRun{flags: flagSets[d[2]], files: map[string]string{"a.clj": "(a\nb)", "b.clj": "(c\nd)\n\n\n\n"}}
		names := []string{"a.clj", "b.clj"}
		m.files["bad.clj"] = text
		names = append(names[:d[1]:d[1]], append([]string{"bad.clj"}, names[d[1]:]...)...)
		m.args, m.names = names, names
		judgeModes(c, m)
		c.Nontrivial(1)
	})
	r.Space("tree", "malformed and missing things in a directory tree", mc.Size(len(flagSets), 6), func(c *mc.Case) {
		d := c.Dims(len(flagSets), 6)
		m := modeRun{flags: flagSets[d[0]], files: map[string]string{"d/a.clj": "(a\nb)", "d/c/b.clj": "(c\nd)\n\n\n\n", "d/e.clj": "(a\nb\n)"}}
		bad := []string{"d/0.clj", "d/b.clj", "d/c/a.clj", "d/c/z.clj", "d/d.clj", "d/z.clj"}[d[1]]
		m.files[bad] = "(a"
		for name := range m.files {
			m.names = append(m.names, name)
		}
		sort.Slice(m.names, func(i, j int) bool {
			return strings.ReplaceAll(m.names[i], "/", "\x00") < strings.ReplaceAll(m.names[j], "/", "\x00")
		})
		m.args, m.shown = []string{"d"}, m.names
		judgeModes(c, m)
		c.Nontrivial(1)
	})
	// Faults at every file-system call.
	if !traceSupported {
		r.Extra("faults", "not enumerated: only on amd64")
		return
	}
	type start struct {
		w rewrite
		f []fault
	}
	var starts []start
	list := rewrites(r.Thorough())
	size := func(w rewrite, op fsOp) int { return len(w.files[op.Path]) }
	probe := &mc.Case{Run: r}
	for _, w := range list {
		res := judgeCrash(probe, w, nil)
		w.normal = &res.stdout // (without the name of the directory)
		starts = append(starts, start{w, nil})
		for i, op := range res.ops {
			for _, f := range faultsAt(i, op, size(w, op), true) {
				starts = append(starts, start{w, []fault{f}})
			}
		}
	}
	depth := 2
	if r.Thorough() {
		depth = 3
	}
	var follow func(c *mc.Case, w rewrite, faults []fault)
	follow = func(c *mc.Case, w rewrite, faults []fault) {
		res := judgeCrash(c, w, faults)
		if len(faults) == 0 || len(faults) >= depth || c.Failed() || !r.Thorough() && w.name != list[0].name && w.name != list[1].name {
			return
		}
		last := faults[len(faults)-1]
		for i := last.at + 1; i < len(res.ops); i++ {
			for _, f := range faultsAt(i, res.ops[i], size(w, res.ops[i]), false) {
				follow(c, w, append(faults[:len(faults):len(faults)], f))
			}
		}
	}
	which := ""
	if !r.Thorough() {
		which = " (only one for all but the first two runs)"
	}
	r.Space("faults", fmt.Sprintf("every sequence of up to %d faults"+which+" (death, errors, short and torn transfers, full disk) at the file-system calls of a run", depth), int64(len(starts)), func(c *mc.Case) {
		s := starts[c.I]
		follow(c, s.w, s.f)
	})
}
