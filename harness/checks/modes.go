package checks

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/impl"
	"verif/mc"
)

func init() {
	add(&mc.Check{ID: "C28", Run: runC28, Assumptions: []string{
		"the formatted text is what the format package prints",
		"what -l does with standard input is left open"}})
	add(&mc.Check{ID: "C29", Run: runC29, Assumptions: []string{
		"where a cyclic or dangling link stops the run is left open"}})
}

// fewFiles runs a command that can only have a few files open at a time.
var fewFiles = []string{"/bin/sh", "-c", "ulimit -n 16; exec \"$0\" \"$@\""}

// formatText is what cljfmt should make of src by default.
func formatText(src string) (out string, ok bool) {
	if f, done := formatTexts.Load(src); done {
		return f.(textResult).out, f.(textResult).ok
	}
	out, ok, err := impl.Format(src, nil)
	ok = ok && err == nil
	if len(src) > 10000 {
		formatTexts.Store(src, textResult{out, ok})
	}
	return out, ok
}

type textResult struct {
	out string
	ok  bool
}

var formatTexts sync.Map // of large texts

// inputFiles are the kinds of input the tool is given. The names don't matter.
var inputFiles = []struct{ name, text string }{
	{"good.clj", "(ns a)\n\n(defn f [x]\n  x)\n"},
	{"bad.clj", "(defn f\n  [x] y)\n\n\n\n(b\nc)"},
	{"empty.clj", ""},
	{"broken.clj", "(a\n b))\n"},
	{"missing.clj", ""}, // is not there
	{"crlf.clj", "(a\r\n b)\r\n"},
	{"big.clj", strings.Repeat("(defn foo\n  [x]   (+ x 1))\n", 2600)},
	{"blank.edn", " \n\n"},
	{"long", strings.Repeat("(a b)\n", 2000)}, // formatted, larger than the file before it
	{"shebang", "#!/usr/bin/env bb\n(a  b)\n"},
	{"latin1.clj", "(a \"\xe9\" )"},
	{".dot", "{:a 1\n,:b 2}"},
}

const (
	iBroken  = 3
	iMissing = 4
)

var fileModes = []os.FileMode{0o644, 0o600, 0o755, 0o444, 0o666, 0o640}

// old is when the files of a scratch directory were last changed.
var old = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

// A modeRun is a run of the tool over files in its directory.
type modeRun struct {
	flags []string
	files map[string]string // by path in the working directory
	modes map[string]os.FileMode
	// args are the arguments; names what they stand for, in order. A name
	// that isn't a file is an error.
	args, names []string
	// shown are the names -l may print, args unless given.
	shown []string
	again bool // run it once more
	via   []string
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// judgeModes runs the tool and compares what happens with the model: files are
// treated one after the other until one fails.
func judgeModes(c *mc.Case, m modeRun) {
	files, modes := map[string]string{}, map[string]os.FileMode{}
	for name, text := range m.files {
		files["w/"+name] = text
		if mode, ok := m.modes[name]; ok {
			modes["w/"+name] = mode
		}
	}
	dir, err := scratch(files, modes)
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	touch := func() map[string]os.FileInfo {
		infos := map[string]os.FileInfo{}
		for name := range files {
			if !strings.HasSuffix(name, "/") {
				p := filepath.Join(dir, name)
				os.Chtimes(p, old, old)
				infos[name], _ = os.Stat(p)
			}
		}
		return infos
	}
	list, write := has(m.flags, "-l"), has(m.flags, "-w")
	desc := fmt.Sprintf("%q %q", m.flags, m.args)
	if len(m.files) > 0 && len(m.files) < 8 {
		desc += fmt.Sprintf(" with %s", firstN(fmt.Sprintf("%q", m.files), 1000))
	}
	rounds := 1
	if m.again {
		rounds = 2
	}
	for round := 0; round < rounds; round++ {
		if round > 0 {
			desc += ", again"
		}
		infos := touch()
		want := map[string]string{}
		for name, text := range files {
			want[name] = text
		}
		stdout, failed, at := "", false, 0
		for i, name := range m.names {
			text, there := want["w/"+name]
			out, ok := "", false
			if there {
				out, ok = formatText(text)
			}
			if !ok {
				failed, at = true, i
				break
			}
			if out != text {
				if list {
					shown := m.shown
					if shown == nil {
						shown = m.args
					}
					stdout += shown[i] + "\n"
				}
				if write {
					want["w/"+name] = out
				}
			}
			if !list && !write {
				stdout += out
			}
		}
		res := runCLI(c, cliRun{args: append(append([]string{}, m.flags...), m.args...), dir: dir, via: m.via})
		c.States(1)
		c.Valid(1)
		c.Outcome(fmt.Sprint(res.exit, res.stdout))
		if failed {
			if res.exit == 0 || res.stderr == "" {
				c.Fail(desc, "exit status %d and message %q although %s can't be formatted", res.exit, res.stderr, m.names[at])
			}
			if !strings.HasPrefix(res.stdout, stdout) {
				c.Fail(desc, "output %s, want %s before the error", q(res.stdout), q(stdout))
			}
			// Files after the one that failed may have been treated or not.
			for _, name := range m.names[at:] {
				text, there := want["w/"+name]
				if out, ok := formatText(text); there && ok && write && res.files["w/"+name] == out {
					want["w/"+name] = out
				}
			}
		} else if res.exit != 0 || res.stdout != stdout {
			c.Fail(desc, "exit status %d (%s), output %s; want %s", res.exit, firstN(res.stderr, 200), q(res.stdout), q(stdout))
		}
		if d := changed(res.files, withDirs(want)); d != "" {
			c.Fail(desc, "afterwards, %s", d)
		}
		for name, info := range infos {
			now, err := os.Stat(filepath.Join(dir, name))
			if err != nil {
				continue
			}
			if now.Mode() != info.Mode() {
				c.Fail(desc, "the permissions of %s are now %s, not %s", name, now.Mode(), info.Mode())
			}
			if want[name] == files[name] && (!os.SameFile(now, info) || !now.ModTime().Equal(info.ModTime())) {
				c.Fail(desc, "%s was written, but its text should stay the same", name)
			}
		}
		if write {
			files = want
		}
	}
}

// withDirs adds the directories files are in.
func withDirs(files map[string]string) map[string]string {
	all := map[string]string{}
	for name, text := range files {
		all[name] = text
		for d := path.Dir(strings.TrimSuffix(name, "/")); d != "."; d = path.Dir(d) {
			all[d+"/"] = ""
		}
	}
	return all
}

func runC28(r *mc.Run) {
	flagSets := [][]string{nil, {"-l"}, {"-w"}, {"-l", "-w"}}
	pick := func(idx []int, rot int) modeRun {
		m := modeRun{files: map[string]string{}, modes: map[string]os.FileMode{}}
		for n, i := range idx {
			f := inputFiles[i]
			if i != iMissing {
				m.files[f.name] = f.text
				m.modes[f.name] = fileModes[(rot+n)%len(fileModes)]
			}
			m.args = append(m.args, f.name)
			m.names = append(m.names, f.name)
		}
		// One that isn't mentioned.
		m.files["other.clj"] = "(x\ny)\n\n\n\n"
		return m
	}
	k := len(inputFiles)
	r.Space("args/1", "every input in every mode, with all permissions, twice", mc.Size(k, len(flagSets), len(fileModes)), func(c *mc.Case) {
		d := c.Dims(k, len(flagSets), len(fileModes))
		m := pick(d[:1], d[2])
		m.flags, m.again = flagSets[d[1]], true
		judgeModes(c, m)
	})
	r.Space("args/2", "every pair of inputs in every mode, twice", mc.Size(k, k, len(flagSets)), func(c *mc.Case) {
		d := c.Dims(k, k, len(flagSets))
		m := pick(d[:2], d[0])
		m.flags, m.again = flagSets[d[2]], true
		judgeModes(c, m)
	})
	k3 := 7
	if r.Thorough() {
		k3 = k
	}
	r.Space("args/3", "every triple of inputs in every mode", mc.Size(k3, k3, k3, len(flagSets)), func(c *mc.Case) {
		d := c.Dims(k3, k3, k3, len(flagSets))
		m := pick(d[:3], d[1])
		m.flags = flagSets[d[3]]
		judgeModes(c, m)
	})
	if r.Thorough() {
		r.Space("args/4", "every sequence of four inputs in every mode", mc.Size(k3, k3, k3, k3, len(flagSets)), func(c *mc.Case) {
			d := c.Dims(k3, k3, k3, k3, len(flagSets))
			m := pick(d[:4], d[1])
			m.flags = flagSets[d[4]]
			judgeModes(c, m)
		})
	}
	// The modes on every text.
	texts := append(append(append([]string{}, corpus...), switchTexts...), longTexts()...)
	texts = append(texts, transformTexts()...)
	texts = append(texts, nsTexts()...)
	for _, s := range corpus {
		for _, end := range []string{")", " ;", "\n", "\r\n", " ", "\x00", "\xff", "\n\n\n"} {
			texts = append(texts, s+end)
		}
	}
	var again []string // what they are formatted as
	for _, s := range texts {
		if out, ok := formatText(s); ok {
			again = append(again, out)
		}
	}
	texts = append(texts, again...)
	r.Space("texts", "every text as a file in every mode", mc.Size(len(texts), len(flagSets)), func(c *mc.Case) {
		d := c.Dims(len(texts), len(flagSets))
		if !r.Thorough() && d[1] > 0 && (d[0]+d[1])%3 > 0 {
			return
		}
		m := modeRun{files: map[string]string{"a.clj": texts[d[0]]}, args: []string{"a.clj"}, names: []string{"a.clj"}, flags: flagSets[d[1]], again: d[1] > 1}
		judgeModes(c, m)
	})
	r.Space("stdin", "every text as standard input", mc.Size(len(texts), 2), func(c *mc.Case) {
		d := c.Dims(len(texts), 2)
		if !r.Thorough() && d[1] == 1 && d[0]%8 > 0 {
			return
		}
		src := texts[d[0]]
		want, ok := formatText(src)
		args := [][]string{nil, {"-w"}}[d[1]]
		res := runCLI(c, cliRun{args: args, stdin: src})
		c.States(1)
		c.Valid(1)
		desc := fmt.Sprintf("%q with standard input %s", args, q(src))
		switch {
		case d[1] == 1 || !ok:
			if res.exit == 0 || res.stdout != "" || res.stderr == "" {
				c.Fail(desc, "exit status %d, output %s, message %q; want a refusal", res.exit, q(res.stdout), res.stderr)
			}
		case res.exit != 0 || res.stdout != want:
			c.Fail(desc, "exit status %d (%s), output %s; want %s", res.exit, firstN(res.stderr, 200), q(res.stdout), q(want))
		}
		if d := changed(res.files, map[string]string{}); d != "" {
			c.Fail(desc, "afterwards, %s", d)
		}
	})
	// Large inputs: sizes around round numbers.
	var sizes []int
	for _, n := range []int{1 << 12, 1 << 13, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 10000, 100000, 1000000} {
		sizes = append(sizes, n-1, n, n+1)
	}
	sizes = append(sizes, 1<<18+1, 1<<19+1, 1<<21+1)
	if r.Thorough() {
		sizes = append(sizes, 1<<21, 1<<22, 1<<22+1, 1<<23+1, 1<<24+1, 1<<25+1, 10000001)
	}
	r.Space("large", "inputs of many sizes, formatted or not or broken at the end, as a file in every mode and as standard input", mc.Size(len(sizes), 4, len(flagSets)+1), func(c *mc.Case) {
		d := c.Dims(len(sizes), 4, len(flagSets)+1)
		n := sizes[d[0]]
		unit := []string{"(a b)\n", "(a\n   b)\n\n\n\n", ";" + strings.Repeat("é", 1000) + "\n", "\"" + strings.Repeat("s", 60000) + "\"\n"}[d[1]]
		text := strings.Repeat(unit, n/len(unit))
		if k := n - len(text); d[1] == 1 && k >= 3 {
			text += strings.Repeat("b", k-1) + "("
		} else if k > 0 {
			text += strings.Repeat("b", k-1) + "\n"
		}
		if d[2] < len(flagSets) {
			judgeModes(c, modeRun{files: map[string]string{"a.clj": text, "b.clj": "(a\n  b)\n"}, args: []string{"a.clj", "b.clj"}, names: []string{"a.clj", "b.clj"}, flags: flagSets[d[2]]})
			return
		}
		want, ok := formatText(text)
		res := runCLI(c, cliRun{stdin: text})
		c.States(1)
		c.Valid(1)
		if ok != (res.exit == 0) || ok && res.stdout != want || !ok && res.stdout != "" {
			c.Fail(fmt.Sprintf("%d bytes, %s... as standard input", n, q(firstN(text, 20))), "exit status %d (%s), output of %d bytes: %s", res.exit, firstN(res.stderr, 200), len(res.stdout), diffAt(res.stdout, want))
		}
	})
	spellings := []string{"%/w/d/bad.clj", "./d/bad.clj", "d//bad.clj", "d/../d/bad.clj", "../w/d/bad.clj", "d/bad.clj", "../home/../w/./d/bad.clj"}
	counts := []int{2, 3, 10, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 1000, 1025}
	r.Space("many", "many arguments, with many and with few file descriptors", mc.Size(len(counts), 3, len(flagSets), 2), func(c *mc.Case) {
		d := c.Dims(len(counts), 3, len(flagSets), 2)
		m := modeRun{files: map[string]string{}, flags: flagSets[d[2]], again: d[0] < 5}
		if d[3] == 1 {
			m.via = fewFiles
		}
		for i := 0; i < counts[d[0]]; i++ {
			name := fmt.Sprintf("f%d.clj", i)
			if d[1] == 2 {
				name = fmt.Sprintf("d%d/x%d", i%7, i)
			}
			m.files[name] = fmt.Sprintf("(f%d\n%sg)\n", i, strings.Repeat(" ", i%3*2)) + strings.Repeat("\n", i%4) + "(h)\n"
			m.args = append(m.args, name)
		}
		if d[1] == 1 { // the same files again
			m.args = append(m.args, m.args...)
		}
		m.names = m.args
		judgeModes(c, m)
	})
	r.Space("spellings", "a file by every path, alone and by two paths", mc.Size(len(spellings), len(spellings)+1, len(flagSets)), func(c *mc.Case) {
		d := c.Dims(len(spellings), len(spellings)+1, len(flagSets))
		m := modeRun{flags: flagSets[d[2]], files: map[string]string{"d/bad.clj": inputFiles[1].text}, again: true}
		m.args, m.names = []string{spellings[d[0]]}, []string{"d/bad.clj"}
		if d[1] > 0 {
			m.args, m.names = append(m.args, spellings[d[1]-1]), append(m.names, "d/bad.clj")
		}
		judgeModes(c, m)
	})
	// Names that mean something to other tools.
	r.Space("names", "files with special names, all texts in every mode, alone, with another one, and by a path", mc.Size(len(fileNames), len(inputFiles), len(flagSets), 3), func(c *mc.Case) {
		d := c.Dims(len(fileNames), len(inputFiles), len(flagSets), 3)
		name, text := fileNames[d[0]], inputFiles[d[1]].text
		if d[1] == iMissing || !r.Thorough() && (d[0]+d[1]+d[2])%4 > 0 && d[1] != 1 {
			return
		}
		if d[3] == 2 {
			name = "d/" + name
		}
		m := modeRun{flags: flagSets[d[2]], files: map[string]string{name: text}, names: []string{name}, shown: []string{name}}
		m.args = []string{strings.ReplaceAll(name, "%", "%%")}
		if d[3] == 1 {
			m.files["x.clj"] = inputFiles[1].text
			m.args, m.names, m.shown = append(m.args, "x.clj"), append(m.names, "x.clj"), append(m.shown, "x.clj")
		}
		if strings.HasPrefix(m.args[0], "-") && m.args[0] != "-" {
			m.args = append([]string{"--"}, m.args...)
		}
		judgeModes(c, m)
	})
	// Files with names that are close to those of the arguments.
	near := []string{"%~", "%.bak", "%.orig", "%.tmp", "%.new", "%.old", "%.swp", "%.cljfmt", "%.backup", "%.0", "%1", ".%", ".%.swp", ".%.tmp", ".%~", "#%#", ".#%", "_%", "~%", "%.clj", "%.clj~", "tmp", "temp", "cljfmt", "cljfmt.tmp", ".cljfmt", ".cljfmt.tmp", "backup", "a", "a~", "a.bak", "a.tmp", "a.new", "a.orig", ".a.tmp", "bak.clj", "tmp.clj", ".tmp"}
	nearOf := func(i int, name string) string { return strings.ReplaceAll(near[i], "%", name) }
	r.Space("neighbours", "every input in every mode, next to files with names close to its own, one and all", mc.Size(k, len(near)+1, len(flagSets), 2), func(c *mc.Case) {
		d := c.Dims(k, len(near)+1, len(flagSets), 2)
		m := pick(d[:1], d[1])
		m.flags = flagSets[d[2]]
		for i := range near {
			if d[1] == 0 || d[1] == i+1 {
				name := nearOf(i, m.names[0])
				m.files[name], m.modes[name] = fmt.Sprintf("(mine %d\n)", i), fileModes[i%len(fileModes)]
			}
		}
		if d[3] == 1 { // by its path
			files := map[string]string{}
			for name, text := range m.files {
				files["d/"+name] = text
			}
			m.files, m.modes = files, map[string]os.FileMode{}
			m.args, m.names = []string{"d/" + m.args[0]}, []string{"d/" + m.names[0]}
		}
		judgeModes(c, m)
	})
	// Arguments that are links to files.
	links := []struct{ name, to string }{{"link.clj", "d/file.clj"}, {"d/link", "file.clj"}, {"link.clj", "%/w/d/file.clj"}, {"link.clj", "../home/file.clj"}, {"d/e/link.clj", "../../file.clj"}, {"link.clj", "d/link2"}}
	r.Space("links", "files given by a symbolic link, every text in every mode", mc.Size(len(links), len(inputFiles), len(flagSets)), func(c *mc.Case) {
		d := c.Dims(len(links), len(inputFiles), len(flagSets))
		judgeLink(c, links[d[0]].name, links[d[0]].to, inputFiles[d[1]].text, flagSets[d[2]])
	})
	flags := []string{"-l", "-w", "--l", "--w", "-l=true", "-w=true", "-l=false", "-w=false"}
	r.Space("flags", "every spelling and order of two flags", mc.Size(len(flags), len(flags)), func(c *mc.Case) {
		d := c.Dims(len(flags), len(flags))
		m := pick([]int{1, 0, 7}, 0)
		on := map[string]bool{}
		var given []string
		for _, i := range d {
			f := flags[i]
			given = append(given, f)
			on[strings.TrimLeft(f, "-")[:1]] = !strings.HasSuffix(f, "false")
		}
		for f, b := range on {
			if b {
				m.flags = append(m.flags, "-"+f)
			}
		}
		sort.Strings(m.flags)
		// judgeModes looks at the flags; the tool gets them as given.
		judgeGiven(c, m, given)
	})
}

// judgeLink runs the tool on a link, which leads to a file with the given text.
func judgeLink(c *mc.Case, name, to, text string, flags []string) {
	files := map[string]string{"w/d/e/": "", "home/x": ""}
	at := path.Join("w", path.Dir(name), to)
	switch {
	case strings.HasPrefix(to, "%/"):
		at = to[2:]
	case strings.HasSuffix(to, "link2"):
		at = "w/file.clj"
	}
	files[at] = text
	dir, err := scratch(files, nil)
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	to = strings.ReplaceAll(to, "%", dir)
	os.Symlink("../file.clj", filepath.Join(dir, "w/d/link2"))
	if err := os.Symlink(to, filepath.Join(dir, "w", name)); err != nil {
		panic(err)
	}
	want := map[string]string{"w/d/link2": "-> ../file.clj", "w/" + name: "-> " + to}
	for n, t := range files {
		want[n] = t
	}
	stdout := ""
	out, ok := formatText(text)
	if ok {
		switch {
		case has(flags, "-l"):
			if out != text {
				stdout = name + "\n"
			}
		case !has(flags, "-w"):
			stdout = out
		}
		if has(flags, "-w") {
			want[at] = out
		}
	}
	res := runCLI(c, cliRun{args: append(append([]string{}, flags...), name), dir: dir})
	c.States(1)
	c.Valid(1)
	desc := fmt.Sprintf("%q %q, a link to %s with %s", flags, name, strings.ReplaceAll(to, dir, "%"), q(firstN(text, 1000)))
	if ok != (res.exit == 0) || res.stdout != stdout || !ok && res.stderr == "" {
		c.Fail(desc, "exit status %d (%s), output %s; want %s", res.exit, firstN(res.stderr, 200), q(res.stdout), q(stdout))
	}
	if d := changed(res.files, withDirs(want)); d != "" {
		c.Fail(desc, "afterwards, %s", d)
	}
}

// judgeGiven is judgeModes with the flags spelled differently.
func judgeGiven(c *mc.Case, m modeRun, given []string) {
	res := func(flags []string) cliResult {
		files, modes := map[string]string{}, map[string]os.FileMode{}
		for name, text := range m.files {
			files["w/"+name], modes["w/"+name] = text, 0o644
		}
		return runCLI(c, cliRun{args: append(append([]string{}, flags...), m.args...), files: files, modes: modes})
	}
	judgeModes(c, m)
	a, b := res(m.flags), res(given)
	if a.exit != b.exit || a.stdout != b.stdout || changed(b.files, a.files) != "" {
		c.Fail(fmt.Sprintf("%q %q", given, m.args), "exit status %d, output %s, %s; with %q, exit status %d, output %s", b.exit, q(b.stdout), changed(b.files, a.files), m.flags, a.exit, q(a.stdout))
	}
}

// Paths that may exist below a directory. Directories end in a slash.
var treePool = []string{
	"a.clj", "a/b.clj", "a.b/c.cljs", "B.cljc", "c.edn", ".d.clj", ".clj", "e", "f.txt", "g.CLJ", "h.clj.bak", "i.bak.clj", "j.clj/", "j.clj/k.clj",
	".hid/l.clj", ".hid/.m.cljs", "n/o/p/q.edn", "a-b.clj", "é.clj", "a b.clj", "r.cljx", "sclj", "t.cljd", "u.", "v/.cljs", "w.clj~", "#x.clj", "a/a.clj", "-y.clj", "z/empty/", "target/a.clj", "src/target/b.cljs",
}

// fileNames are names that files may have.
var fileNames = []string{"a b.clj", " a", "a ", "a\tb.clj", "é.clj", "日本.clj", "e\u0301.clj", "a'b.clj", "a\"b.clj", "a\\b.clj", "a\\", "a*b.clj", "*", "?", "[a]", "{a,b}", "$HOME", "${x}", "~", "~a", "%s.clj", "a%db", "%", "%2F", "-", "-x.clj", "-l", "-w", "--", "--help", "a:b.clj", "a;b", "a|b", "a&b", "<a>", "(a)", "@a", "#a", "!a", "=a", "a=b", "...", "..a", "a.", "a..clj", ".clj", "stdin", "STDIN", "nul", "file:a", "a\xffb.clj", "\u00a0", "\u200b", "A.CLJ", "a.clj.gz", "a.jar", "0", "1", "true",
	strings.Repeat("n", 100) + ".clj", strings.Repeat("n", 200) + ".clj", strings.Repeat("n", 251) + ".clj", strings.Repeat("é", 120) + ".clj", strings.Repeat("n", 255)}

var specialNames = []string{"target", "node_modules", "resources", "test", "vendor", "out", "build", "dist", "bin", "classes", "lib", "checkouts", "testdata", "generated", "tmp", "temp", "doc", "docs", "dev", "profiles",
	"project", "deps", "build.boot", "_build", "_x", "CVS", ".git", ".cpcache", ".shadow-cljs", ".clj-kondo", ".lsp", "cljs-runtime", "public", "x~", "#x#", "core", "nul", "con", "...", "..x", "x..", "-", "--", "-w", "*", "[a]", "a\\b", "$HOME", "~", "é"}

func runC29(r *mc.Run) {
	type extList struct {
		conf string
		exts []string
	}
	exts := []extList{
		{"", []string{".clj", ".cljs", ".cljc", ".edn"}},
		{"{}", []string{".clj", ".cljs", ".cljc", ".edn"}},
		{"{:extensions []}", nil},
		{"{:extensions [\".txt\"]}", []string{".txt"}},
		{"{:extensions (\".CLJ\" \".cljx\", \".clj~\")}", []string{".CLJ", ".cljx", ".clj~"}},
		{"{:extensions [\".bak\" \".clj\"]}", []string{".bak", ".clj"}},
		{"{:extensions [\"clj\" \".bak.clj\" \"j\" \"a.clj\" \".edn\"]}", []string{".edn"}},
		{"{:extensions [\".\" \".clj.bak\" \".cl\" \".c*\" \".CLJS\" \"*\" \".[a-z]*\" \" .clj\" \".clj \"]}", []string{"."}},
	}
	// selected lists the files of a directory in the order they are due.
	var selected func(dir string, paths []string, exts []string) []string
	selected = func(dir string, paths []string, exts []string) []string {
		below := map[string][]string{}
		var names []string
		for _, p := range paths {
			name, rest := p, ""
			if i := strings.IndexByte(p, '/'); i >= 0 {
				name, rest = p[:i+1], p[i+1:]
			}
			if _, ok := below[name]; !ok {
				names = append(names, name)
			}
			below[name] = append(below[name], rest)
		}
		sort.Slice(names, func(i, j int) bool {
			return strings.TrimSuffix(names[i], "/") < strings.TrimSuffix(names[j], "/")
		})
		var out []string
		for _, name := range names {
			if strings.HasSuffix(name, "/") {
				var rest []string
				for _, p := range below[name] {
					if p != "" {
						rest = append(rest, p)
					}
				}
				out = append(out, selected(dir+name, rest, exts)...)
				continue
			}
			i := strings.LastIndexByte(name, '.')
			if name[0] != '.' && i > 0 && has(exts, name[i:]) {
				out = append(out, dir+name)
			}
		}
		return out
	}
	flagSets := [][]string{nil, {"-l"}, {"-w"}}
	// judge runs the tool on a directory "t" with the given paths in it.
	judge := func(c *mc.Case, paths []string, ext int, flags []string, args []string, via ...string) {
		m := modeRun{files: map[string]string{}, via: via}
		for i, p := range paths {
			if strings.HasSuffix(p, "/") {
				m.files["t/"+p] = ""
			} else {
				m.files["t/"+p] = fmt.Sprintf("(f%d\ng)\n\n\n\n(h)", i)
			}
		}
		m.flags = append(m.flags, flags...)
		if conf := exts[ext].conf; conf != "" {
			m.files["../home/.cljfmt"] = conf
		}
		m.args = args
		for _, arg := range args {
			if p := strings.TrimPrefix(arg, "t/"); p != arg && has(paths, p) && !strings.HasSuffix(p, "/") {
				m.names = append(m.names, arg)
				m.shown = append(m.shown, arg)
				continue
			}
			// A directory: the whole one, or one below.
			rest := ""
			clean := path.Clean(strings.TrimPrefix(strings.TrimPrefix(arg, "%/w/"), "../w/"))
			if clean != "t" && clean != "." {
				rest = strings.TrimPrefix(clean, "t/") + "/"
			}
			var below []string
			for _, p := range paths {
				if strings.HasPrefix(p, rest) && p != rest {
					below = append(below, p[len(rest):])
				}
			}
			for _, name := range selected("t/"+rest, below, exts[ext].exts) {
				m.names = append(m.names, name)
				prefix := ""
				for _, p := range []string{"%/w/", "../w/"} {
					if strings.HasPrefix(arg, p) {
						prefix = p
					}
				}
				m.shown = append(m.shown, prefix+name)
			}
		}
		if m.shown == nil {
			m.shown = []string{}
		}
		judgeTree(c, m)
	}
	n := len(treePool)
	tree := func(idx ...int) (paths []string, ok bool) {
		for i, x := range idx {
			if i > 0 && x <= idx[i-1] {
				return nil, false
			}
			paths = append(paths, treePool[x])
		}
		return paths, true
	}
	r.Space("trees/2", "all trees of up to two paths, for all extension lists, in all modes", mc.Size(n, n, len(exts), len(flagSets)), func(c *mc.Case) {
		d := c.Dims(n, n, len(exts), len(flagSets))
		paths, ok := tree(d[0], d[1])
		if d[0] == d[1] {
			paths, ok = tree(d[0])
		}
		if !ok || !r.Thorough() && (d[0]+d[1]+d[2]+d[3])%3 > 0 {
			return
		}
		judge(c, paths, d[2], flagSets[d[3]], []string{"t"})
	})
	r.Space("trees/3", "all trees of three paths", mc.Size(n, n, n), func(c *mc.Case) {
		d := c.Dims(n, n, n)
		paths, ok := tree(d...)
		if !ok || !r.Thorough() && (d[0]+d[1]+d[2])%3 > 0 {
			return
		}
		judge(c, paths, 0, flagSets[int(c.I)%3], []string{"t"})
	})
	r.Space("trees/most", "the tree of all paths but up to two", mc.Size(n, n, len(exts), len(flagSets)), func(c *mc.Case) {
		d := c.Dims(n, n, len(exts), len(flagSets))
		if d[0] > d[1] || !r.Thorough() && d[0] != d[1] {
			return
		}
		var paths []string
		for i, p := range treePool {
			if i != d[0] && i != d[1] {
				paths = append(paths, p)
			}
		}
		judge(c, paths, d[2], flagSets[d[3]], []string{"t"})
	})
	var all []string
	all = append(all, treePool...)
	args := []string{"t", "t/", "./t", "t/.", "%/w/t", "../w/t", ".", "t/a", "t/j.clj", "t/.hid", "t/n/o", "./t/n/../a", "t/z", "t/z/empty"}
	for _, p := range treePool {
		if !strings.HasSuffix(p, "/") {
			args = append(args, "t/"+p)
		}
	}
	r.Space("args/1", "every directory by every spelling and every file by name", mc.Size(len(args), len(exts), len(flagSets)), func(c *mc.Case) {
		d := c.Dims(len(args), len(exts), len(flagSets))
		judge(c, all, d[1], flagSets[d[2]], args[d[0]:d[0]+1])
	})
	r.Space("args/2", "every two arguments", mc.Size(len(args), len(args), len(flagSets)), func(c *mc.Case) {
		d := c.Dims(len(args), len(args), len(flagSets))
		if !r.Thorough() && (d[0]+d[1]+d[2])%3 > 0 {
			return
		}
		judge(c, all, 0, flagSets[d[2]], []string{args[d[0]], args[d[1]]})
	})
	// Directories and files with names that mean something to other tools.
	var special []string
	for _, name := range specialNames {
		special = append(special, name+"/a.clj", name+"/b/c.cljs", "d/"+name+"/e.clj", "f/"+name+"/"+name+"/g.edn", name+".clj", "h/"+name+".cljc")
	}
	r.Space("names/1", "directories with special names, by themselves, in all modes", mc.Size(len(specialNames), 6, len(flagSets)), func(c *mc.Case) {
		d := c.Dims(len(specialNames), 6, len(flagSets))
		judge(c, []string{special[6*d[0]+d[1]], "x.clj"}, 0, flagSets[d[2]], []string{"t"})
	})
	r.Space("names/all", "directories with special names, all in one, by every path", mc.Size(len(specialNames)+1, len(flagSets), len(exts)), func(c *mc.Case) {
		d := c.Dims(len(specialNames)+1, len(flagSets), len(exts))
		args := []string{"t"}
		if d[0] > 0 {
			args = []string{"t/" + specialNames[d[0]-1]}
		}
		judge(c, special, d[2], flagSets[d[1]], args)
	})
	// Links and special files.
	linkNames := []string{"l.clj", "l.txt", "l", ".l.clj", "z/l.cljc", "a/l.edn"}
	// What links lead to; "fifo" stands for a named pipe instead.
	linkTo := []string{"%/w/t/b.clj", "b.clj", "../b.clj", "../out/x.clj", "../out/x.txt", "../../out/x.txt", "%/out/x.clj", "../out", "%/out", ".", "..", "%/w/t", "%/w/t/a", "a", "fifo", "l.clj", "no", "%/dev-null", "l2"}
	r.Space("links", "directories with a link or a named pipe, in all modes", mc.Size(len(linkNames), len(linkTo), len(flagSets), 2), func(c *mc.Case) {
		d := c.Dims(len(linkNames), len(linkTo), len(flagSets), 2)
		judgeTreeLink(c, linkNames[d[0]], linkTo[d[1]], flagSets[d[2]], []string{"t", "t/"}[d[3]])
	})
	// Directories that are given by a link.
	rootLinks := []struct{ name, to string }{{"l", "t"}, {"l.clj", "t"}, {".l", "t"}, {"l", "t/"}, {"l", "%/w/t"}, {"d/l", "../t"}, {"d/.l.edn", "../t"}, {"l", "l2"}, {"l.cljc", "l2"}, {"t/l", "a"}}
	rootArgs := []string{"@", "@/", "./@", "@//", "%/w/@", "@/."}
	r.Space("links/2", "directories that are given by a symbolic link, in all modes", mc.Size(len(rootLinks), len(rootArgs), len(flagSets)), func(c *mc.Case) {
		d := c.Dims(len(rootLinks), len(rootArgs), len(flagSets))
		l := rootLinks[d[0]]
		judgeRootLink(c, l.name, l.to, flagSets[d[2]], strings.ReplaceAll(rootArgs[d[1]], "@", l.name))
	})
	// Files of every size, with all permissions, of every age.
	attrSizes := []int{0, 1, 4095, 4096, 1 << 16, 1<<16 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 10000001}
	attrModes := []os.FileMode{0o644, 0, 0o400, 0o444, 0o200, 0o600, 0o755, 0o777, 0o111, 0o4755 | os.ModeSetuid, 0o644 | os.ModeSticky}
	attrTimes := []time.Time{{}, time.Unix(0, 0), time.Unix(1<<32, 0), old}
	r.Space("attributes", "directories with files of every size, with all permissions, of every age", mc.Size(len(attrSizes)*len(attrModes), len(attrTimes), len(flagSets)), func(c *mc.Case) {
		d := c.Dims(len(attrSizes), len(attrModes), len(attrTimes), len(flagSets))
		if d[0] > 3 && d[1] > 3 && !r.Thorough() {
			return
		}
		judgeAttributes(c, attrSizes[d[0]], attrModes[d[1]], attrTimes[d[2]], flagSets[d[3]])
	})
	hardArgs := []string{"t", "./t", "t/", "../w/t"}
	r.Space("hard-links", "directories with files that have several names", mc.Size(len(hardNames), len(hardFlags), len(hardArgs)), func(c *mc.Case) {
		d := c.Dims(len(hardNames), len(hardFlags), len(hardArgs))
		judgeHardlinks(c, hardNames[d[0]], hardFlags[d[1]], hardArgs[d[2]])
	})
	// Many files and deep directories.
	sizes := []int{1, 2, 9, 10, 11, 99, 100, 101, 1000, 1025}
	r.Space("scale", "many files in a directory; deep directories; with few file descriptors", mc.Size(len(sizes), 2, len(flagSets), 2), func(c *mc.Case) {
		d := c.Dims(len(sizes), 2, len(flagSets), 2)
		var via []string
		if d[3] == 1 {
			via = fewFiles
		}
		k := sizes[d[0]]
		var paths []string
		if d[1] == 0 {
			for i := 0; i < k; i++ {
				paths = append(paths, fmt.Sprintf("f%d.clj", i))
			}
		} else {
			for i := 0; i < k && i < 120; i++ {
				paths = append(paths, strings.Repeat("d/", i)+"f.clj")
			}
		}
		judge(c, paths, 0, flagSets[d[2]], []string{"t"}, via...)
	})
}

// judgeTree is judgeModes for trees, where what -l prints is judged by what the
// printed paths mean.
func judgeTree(c *mc.Case, m modeRun) {
	files := map[string]string{}
	for name, text := range m.files {
		files[path.Join("w", name)+map[bool]string{true: "/"}[strings.HasSuffix(name, "/")]] = text
	}
	list, write := has(m.flags, "-l"), has(m.flags, "-w")
	want := map[string]string{}
	for name, text := range files {
		want[name] = text
	}
	stdout := ""
	var shown []string
	for _, name := range m.names {
		text := want["w/"+name]
		out, _ := formatText(text)
		if out != text && list {
			shown = append(shown, "%/w/"+name)
		}
		if !list && !write {
			stdout += out
		}
		if write {
			want["w/"+name] = out
		}
	}
	res := runCLI(c, cliRun{args: append(append([]string{}, m.flags...), m.args...), files: files, via: m.via})
	c.States(1)
	c.Valid(1)
	c.Outcome(res.stdout)
	var names []string
	for name := range m.files {
		names = append(names, name)
	}
	sort.Strings(names)
	desc := fmt.Sprintf("%q %q in a directory with %s", m.flags, m.args, firstN(fmt.Sprintf("%q", names), 1500))
	if list {
		stdout = strings.Join(shown, "\n")
		lines := strings.Split(strings.TrimSuffix(res.stdout, "\n"), "\n")
		for i, l := range lines {
			if l != "" && !strings.HasPrefix(l, "%/") {
				l = "%/w/" + l
			}
			lines[i] = path.Clean(l)
			if l == "" {
				lines[i] = ""
			}
		}
		res.stdout = strings.Join(lines, "\n")
	}
	if res.exit != 0 || res.stdout != stdout {
		c.Fail(desc, "exit status %d (%s), output %s; want %s", res.exit, firstN(res.stderr, 200), q(res.stdout), q(stdout))
	}
	if d := changed(res.files, withDirs(want)); d != "" {
		c.Fail(desc, "afterwards, %s", d)
	}
}

// judgeRootLink runs the tool on a link to a directory.
func judgeRootLink(c *mc.Case, name, to string, flags []string, arg string) {
	files := map[string]string{"w/t/b.clj": "(b\nc)", "w/t/a/c.cljs": "(a\nc)", "w/t/a/d.clj": "(d)\n", "w/t/.c.clj": "(e\nf)", "w/t/z/y.edn": "(y\nz)", "w/t/zz.txt": "(z\nz)", "w/d/x.clj": "(d\nx)"}
	dir, err := scratch(files, nil)
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	dest := strings.ReplaceAll(to, "%", dir)
	want := map[string]string{"w/l2": "-> t", "w/" + name: "-> " + dest}
	for n, t := range files {
		want[n] = t
	}
	os.Symlink("t", filepath.Join(dir, "w/l2"))
	if err := os.Symlink(dest, filepath.Join(dir, "w", name)); err != nil {
		panic(err)
	}
	top, list := "w/t/", []string{"a/c.cljs", "a/d.clj", "b.clj", "z/y.edn"}
	if to == "a" {
		top, list = "w/t/a/", []string{"c.cljs", "d.clj"}
	}
	stdout := ""
	for _, n := range list {
		out, _ := formatText(want[top+n])
		switch {
		case has(flags, "-l"):
			if out != want[top+n] {
				stdout += path.Join(arg, n) + "\n"
			}
		case !has(flags, "-w"):
			stdout += out
		}
		if has(flags, "-w") {
			want[top+n] = out
		}
	}
	res := runCLI(c, cliRun{args: append(append([]string{}, flags...), arg), dir: dir})
	c.States(1)
	c.Valid(1)
	c.Outcome(res.stdout)
	desc := fmt.Sprintf("%q %q, where %s is a link to %s, a directory", flags, arg, name, to)
	if has(flags, "-l") {
		lines := strings.SplitAfter(res.stdout, "\n")
		for i, l := range lines {
			if l != "" {
				lines[i] = path.Clean(l)
			}
		}
		res.stdout = strings.Join(lines, "")
	}
	if res.exit != 0 || res.stdout != stdout {
		c.Fail(desc, "exit status %d (%s), output %s; want %s", res.exit, firstN(res.stderr, 200), q(res.stdout), q(stdout))
	}
	if d := changed(res.files, withDirs(want)); d != "" {
		c.Fail(desc, "afterwards, %s", d)
	}
}

// judgeAttributes runs the tool on a directory with a file of the given size.
func judgeAttributes(c *mc.Case, size int, mode os.FileMode, at time.Time, flags []string) {
	text := "(a  b)\n"
	if size > len(text) {
		line := ";" + strings.Repeat("c", 998) + "\n"
		text += strings.Repeat(line, (size-len(text))/len(line))
		text += strings.Repeat("\n", size-len(text))
	}
	text = text[:size]
	if size == 1 {
		text = " "
	}
	files := map[string]string{"w/t/m.clj": text, "w/t/z/y.edn": "(y\nz)", "w/t/a/x.clj": "(x\ny)"}
	dir, err := scratch(files, map[string]os.FileMode{"w/t/m.clj": mode})
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	name := filepath.Join(dir, "w/t/m.clj")
	if !at.IsZero() {
		os.Chtimes(name, at, at)
	}
	before, err := os.Stat(name)
	if err != nil {
		panic(err)
	}
	if f, err := os.OpenFile(name, os.O_RDWR, 0); err != nil {
		return // not even for root here
	} else {
		f.Close()
	}
	stdout := ""
	want := map[string]string{}
	for _, n := range []string{"a/x.clj", "m.clj", "z/y.edn"} {
		text := files["w/t/"+n]
		out, _ := formatText(text)
		want["w/t/"+n] = text
		switch {
		case has(flags, "-l"):
			if out != text {
				stdout += "t/" + n + "\n"
			}
		case has(flags, "-w"):
			want["w/t/"+n] = out
		default:
			stdout += out
		}
	}
	res := runCLI(c, cliRun{args: append(append([]string{}, flags...), "t"), dir: dir})
	c.States(1)
	c.Valid(1)
	c.Outcome(fmt.Sprint(size, mode))
	desc := fmt.Sprintf("%q of a directory with a file of %d bytes, permissions %s, changed on %s", flags, size, mode, at)
	if res.exit != 0 || res.stdout != stdout {
		c.Fail(desc, "exit status %d (%s), output %s", res.exit, firstN(res.stderr, 200), diffAt(res.stdout, stdout))
	}
	if d := changed(res.files, withDirs(want)); d != "" {
		c.Fail(desc, "afterwards, %s", firstN(d, 500))
	}
	if after, err := os.Stat(name); err == nil && after.Mode().Perm() != before.Mode().Perm() {
		c.Fail(desc, "afterwards, the permissions are %s", after.Mode())
	}
}

// hardNames are the names that files with several names have.
var hardNames = [][]string{{"a.clj", "b.clj"}, {"a.clj", "z/a.clj"}, {"a/x.cljs", "b.edn", "c/d/e.clj"}, {"a.clj", "b.txt"}, {"b.txt", "a/c.cljc"}, {".a.clj", "b.clj"}, {"a.clj", "../o.clj"}, {"a.clj", "b.clj", "c.clj", "d.clj"}}

// hardFlags are flags for files with several names. (Whether such a file is
// written to or replaced is open, so -l doesn't come with -w.)
var hardFlags = [][]string{{}, {"-l"}, {"-w"}}

// judgeHardlinks runs the tool on a directory where a file has several names;
// each is one file to format.
func judgeHardlinks(c *mc.Case, names []string, flags []string, arg string) {
	const text = "(b\nc)"
	files := map[string]string{"w/t/m.clj": "(m\nn)", "w/t/z/y.edn": "(y\nz)", "w/t/" + names[0]: text, "w/t/y/k.clj": text}
	dir, err := scratch(files, nil)
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	for _, n := range names[1:] {
		at := filepath.Join(dir, "w/t", n)
		os.MkdirAll(filepath.Dir(at), 0o755)
		if err := os.Link(filepath.Join(dir, "w/t", names[0]), at); err != nil {
			panic(err)
		}
		files[path.Join("w/t", n)] = text
	}
	var all []string
	for n := range files {
		all = append(all, n)
	}
	sort.Strings(all)
	want := map[string]string{}
	var shown []string
	written := false // under one of its names
	for _, n := range all {
		want[n] = files[n]
		base := path.Base(n)
		if !strings.HasPrefix(n, "w/t/") || base[0] == '.' || !has([]string{".clj", ".cljs", ".cljc", ".edn"}, path.Ext(n)) {
			continue
		}
		out, _ := formatText(files[n])
		switch {
		case has(flags, "-l"):
			shown = append(shown, path.Join(arg, strings.TrimPrefix(n, "w/t/")))
		case has(flags, "-w"):
			want[n] = out
			for _, name := range names {
				written = written || path.Join("w/t", name) == n
			}
		default:
			shown = append(shown, out)
		}
	}
	res := runCLI(c, cliRun{args: append(append([]string{}, flags...), arg), dir: dir})
	c.States(1)
	c.Valid(1)
	c.Outcome(res.stdout)
	desc := fmt.Sprintf("%q %q, where %q are names of one file", flags, arg, names)
	stdout := strings.Join(shown, "")
	if has(flags, "-l") {
		stdout = strings.Join(shown, "\n")
		lines := strings.Split(strings.TrimSuffix(res.stdout, "\n"), "\n")
		for i, l := range lines {
			lines[i] = path.Clean(l)
		}
		res.stdout = strings.Join(lines, "\n")
	}
	if res.exit != 0 || res.stdout != stdout {
		c.Fail(desc, "exit status %d (%s), output %s; want %s", res.exit, firstN(res.stderr, 200), q(res.stdout), q(stdout))
	}
	if written { // the names that aren't formatted may or may not be the same file still
		for _, n := range names {
			n = path.Join("w/t", n)
			if out, _ := formatText(text); want[n] == text && res.files[n] == out {
				want[n] = out
			}
		}
	}
	if d := changed(res.files, withDirs(want)); d != "" {
		c.Fail(desc, "afterwards, %s", d)
	}
}

// judgeTreeLink runs the tool on a directory with a link in it.
func judgeTreeLink(c *mc.Case, name, to string, flags []string, arg string) {
	files := map[string]string{"out/x.clj": "(x\ny)", "out/x.txt": "(x\nz)", "w/t/b.clj": "(b\nc)", "w/t/a/c.cljs": "(a\nc)", "w/t/z/y.edn": "(y\nz)", "w/t/zz.clj": "(z\nz)"}
	dir, err := scratch(files, nil)
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	at := filepath.Join(dir, "w/t", name)
	dest := strings.ReplaceAll(to, "%", dir)
	want := map[string]string{}
	for n, t := range files {
		want[n] = t
	}
	os.Symlink("b.clj", filepath.Join(dir, "w/t/l2"))
	want["w/t/l2"] = "-> b.clj"
	if to == "fifo" {
		err = syscall.Mkfifo(at, 0o644)
		want["w/t/"+name] = (os.ModeNamedPipe | 0o644).String()
	} else {
		err = os.Symlink(dest, at)
		want["w/t/"+name] = "-> " + dest
	}
	if err != nil {
		panic(err)
	}
	list := []string{"a/c.cljs", "b.clj", "z/y.edn", "zz.clj"}
	i := strings.LastIndexByte(name, '.')
	st, err := os.Stat(at)
	failed := false
	if i >= 0 && name[0] != '.' && has([]string{".clj", ".cljc", ".edn"}, name[i:]) {
		switch {
		case err != nil:
			failed = true // leads nowhere
		case st.Mode().IsRegular():
			list = append(list, name)
			sort.Strings(list) // by directory, as it happens
		}
	}
	stdout := ""
	for _, n := range list {
		real, _ := filepath.EvalSymlinks(filepath.Join(dir, "w/t", n))
		real, _ = filepath.Rel(dir, real)
		out, _ := formatText(want[real])
		switch {
		case has(flags, "-l"):
			stdout += "t/" + n + "\n"
		case !has(flags, "-w"):
			stdout += out
		}
		if has(flags, "-w") {
			want[real] = out
		}
	}
	res := runCLI(c, cliRun{args: append(append([]string{}, flags...), arg), dir: dir})
	c.States(1)
	c.Valid(1)
	c.Outcome(res.stdout)
	desc := fmt.Sprintf("%q %q, where %s is a link to %s", flags, arg, name, to)
	if failed {
		if res.exit == 0 || res.stderr == "" {
			c.Fail(desc, "exit status %d, message %q, although the link can't be read", res.exit, res.stderr)
		}
		return
	}
	if has(flags, "-l") {
		res.stdout = strings.ReplaceAll(res.stdout, "t//", "t/")
	}
	if res.exit != 0 || res.stdout != stdout {
		c.Fail(desc, "exit status %d (%s), output %s; want %s", res.exit, firstN(res.stderr, 200), q(res.stdout), q(stdout))
	}
	if d := changed(res.files, withDirs(want)); d != "" {
		c.Fail(desc, "afterwards, %s", d)
	}
}
