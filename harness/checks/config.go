package checks

import (
	"fmt"
	"strings"

	"github.com/cespare/goclj/format"
	"verif/impl"
	"verif/mc"
	"verif/ref"
)

func init() {
	add(&mc.Check{ID: "C27", Run: runC27, Assumptions: []string{
		"what overrides mean for the layout is judged by C17 and C18; here, it is taken from the format package",
		"repeated keys and names, metadata, namespaced maps, extensions that don't start with a dot and keys that aren't keywords are left open"}})
}

// A settingsFile is what a configuration file means.
type settingsFile struct {
	exts        []string
	indents     map[string]format.IndentStyle
	threadFirst map[string]format.ThreadFirstStyle
}

var defaultExts = []string{".clj", ".cljs", ".cljc", ".edn"}

// The documented styles.
var (
	styleNames = []string{"normal", "list", "list-body", "let", "letfn", "for", "deftype", "cond0", "cond1", "cond2", "cond4"}
	styleOf    = map[string]format.IndentStyle{
		":normal": format.IndentNormal, ":list": format.IndentList, ":list-body": format.IndentListBody, ":let": format.IndentLet, ":letfn": format.IndentLetfn, ":for": format.IndentFor,
		":deftype": format.IndentDeftype, ":cond0": format.IndentCond0, ":cond1": format.IndentCond1, ":cond2": format.IndentCond2, ":cond4": format.IndentCond4,
	}
	threadStyleOf = map[string]format.ThreadFirstStyle{":normal": format.ThreadFirstNormal, ":cond->": format.ThreadFirstCondArrow}
)

// readConfig is the model of configuration files: what the file means, or that
// it is refused.
func readConfig(text string) (s settingsFile, ok bool) {
	s.exts = defaultExts
	roots, err := ref.ParseOpts(text, ref.Opts{Drop: true, IgnoreDiscard: true})
	if err != nil {
		return s, false
	}
	if len(roots) == 0 {
		return s, true
	}
	if len(roots) > 1 || roots[0].Kind != ref.Map || len(roots[0].Kids)%2 > 0 {
		return s, false
	}
	isSeq := func(n *ref.Node) bool { return n.Kind == ref.List || n.Kind == ref.Vector }
	kids := roots[0].Kids
	for i := 0; i < len(kids); i += 2 {
		k, v := kids[i], kids[i+1]
		if k.Kind != ref.Keyword {
			continue
		}
		if k.Text != ":extensions" && k.Text != ":indent-overrides" && k.Text != ":thread-first-overrides" || !isSeq(v) {
			return s, false
		}
		if k.Text == ":extensions" {
			s.exts = nil
			for _, e := range v.Kids {
				if e.Kind != ref.String {
					return s, false
				}
				s.exts = append(s.exts, e.Text)
			}
			continue
		}
		if len(v.Kids)%2 > 0 {
			return s, false
		}
		indents, threadFirst := map[string]format.IndentStyle{}, map[string]format.ThreadFirstStyle{}
		for j := 0; j < len(v.Kids); j += 2 {
			names := []*ref.Node{v.Kids[j]}
			if isSeq(v.Kids[j]) {
				names = v.Kids[j].Kids
			}
			style := v.Kids[j+1]
			if style.Kind != ref.Keyword {
				return s, false
			}
			indent, isIndent := styleOf[style.Text]
			thread, isThread := threadStyleOf[style.Text]
			// A style that nothing has needn't be one.
			known := isIndent
			if k.Text == ":thread-first-overrides" {
				known = isThread
			}
			if !known && len(names) > 0 {
				return s, false
			}
			for _, n := range names {
				if n.Kind != ref.String {
					return s, false
				}
				indents[n.Text], threadFirst[n.Text] = indent, thread
			}
		}
		if k.Text == ":indent-overrides" {
			s.indents = indents
		} else {
			s.threadFirst = threadFirst
		}
	}
	return s, true
}

// probe is formatted differently for all styles of f, g and h, and all
// thread-first styles of ->> and -?>.
var probe = func() string {
	form := "(%s a\nb\n[c\nd]\ne\nf\ng)\n(%s [(a [x]\ny)\nb] c\nd)\n(%s [x y :let [a\nb]] c\nd)\n(%s T [a] (m [x]\ny))\n(%s\na\nb [c\nd])\n"
	s := "(ns n (:require [m.n :as a]))\n"
	for _, name := range []string{"f", "g", "h", "a/k", "defx", "let"} {
		s += fmt.Sprintf(form, name, name, name, name, name)
	}
	for _, name := range []string{"->", "-?>", "cond->", "a/->"} {
		s += fmt.Sprintf("(%s x\n(case 1\n2\n3)\n(case\n1\n2\n3)\n(condp 1\n2\n3\n4))\n", name)
	}
	return s
}()

var probeFiles = []string{"a.clj", "b.foo", "c.edn", "d.bar", "e.cljc", "f.cljs", "g", "h.clj.foo"}

// expect is what formatting the probe gives under s.
func (s settingsFile) expect() string {
	out, ok, err := impl.Format(probe, &impl.Cfg{Indents: s.indents, ThreadFirst: s.threadFirst})
	if !ok || err != nil {
		panic("the probe isn't formatted")
	}
	return out
}

// Ways to run the tool.
const (
	onDir = iota
	onStdin
	onDirList
	onDirWrite
	onFileWrite
	numProbeModes
)

// judgeSettings runs the tool and compares what it does with the settings s,
// or a refusal. args and env and files set the configuration up.
func judgeSettings(c *mc.Case, desc string, s settingsFile, ok bool, mode int, args, env []string, files map[string]string) {
	run := cliRun{args: append([]string{}, args...), env: env, files: map[string]string{}}
	for name, text := range files {
		run.files[name] = text
	}
	for _, name := range probeFiles {
		run.files["w/t/"+name] = probe
	}
	switch mode {
	case onDir:
		run.args = append(run.args, "t")
	case onStdin:
		run.stdin = probe
	case onDirList:
		run.args = append(run.args, "-l", "t")
	case onDirWrite:
		run.args = append(run.args, "-w", "t")
	case onFileWrite:
		run.args = append(run.args, "-w", "t/g", "t/d.bar")
	}
	want := map[string]string{}
	for name, text := range run.files {
		want[name] = text
	}
	res := runCLI(c, run)
	c.States(1)
	c.Valid(1)
	desc = fmt.Sprintf("%s (%q, %q)", desc, run.args, env)
	if !ok {
		if res.exit == 0 || res.stdout != "" || res.stderr == "" {
			c.Fail(desc, "exit status %d, output %s, message %q; want the configuration to be refused", res.exit, q(res.stdout), firstN(res.stderr, 200))
		}
		c.Outcome(fmt.Sprint("refused", c.I))
	} else {
		out := s.expect()
		c.Outcome(out + fmt.Sprint(s.exts))
		stdout := ""
		for _, name := range probeFiles {
			i := strings.LastIndexByte(name, '.')
			chosen := i >= 0 && has(s.exts, name[i:])
			switch {
			case mode == onDir && chosen:
				stdout += out
			case mode == onDirList && chosen:
				stdout += "t/" + name + "\n"
			case mode == onDirWrite && chosen, mode == onFileWrite && (name == "g" || name == "d.bar"):
				want["w/t/"+name] = out
			}
		}
		if mode == onStdin {
			stdout = out
		}
		if res.exit != 0 || res.stdout != stdout {
			c.Fail(desc, "exit status %d (%s); the output %s", res.exit, firstN(res.stderr, 200), diffAt(res.stdout, stdout))
		}
	}
	if d := changed(res.files, withDirs(want)); d != "" {
		c.Fail(desc, "afterwards, %s", d)
	}
}

// judgeConfig gives the tool text as the configuration file.
func judgeConfig(c *mc.Case, text string, mode int) {
	s, ok := readConfig(text)
	judgeSettings(c, fmt.Sprintf("configuration %s", q(text)), s, ok, mode, []string{"-c", "%/conf"}, nil, map[string]string{"conf": text})
}

func runC27(r *mc.Run) {
	r.Space("probe", "the probe text tells all styles apart", int64(len(styleNames)*len(styleNames)), func(c *mc.Case) {
		d := c.Dims(len(styleNames), len(styleNames))
		for _, name := range []string{"f", "m.n/k", "let"} {
			s := settingsFile{indents: map[string]format.IndentStyle{name: styleOf[":"+styleNames[d[0]]]}}
			s1 := settingsFile{indents: map[string]format.IndentStyle{name: styleOf[":"+styleNames[d[1]]]}}
			if d[0] != d[1] && s.expect() == s1.expect() {
				c.Fail("probe", "styles %s and %s look the same", styleNames[d[0]], styleNames[d[1]])
			}
		}
		for i, name := range []string{"->", "-?>", "cond->"} {
			a := settingsFile{threadFirst: map[string]format.ThreadFirstStyle{name: format.ThreadFirstNormal}}.expect()
			b := settingsFile{threadFirst: map[string]format.ThreadFirstStyle{name: format.ThreadFirstCondArrow}}.expect()
			if a == b {
				c.Fail("probe", "thread-first styles look the same for name %d", i)
			}
		}
	})
	exts := []string{"", "[]", "()", "[\".foo\"]", "(\".foo\" \".bar\")", "[\".clj\",\n;c\n\".edn\"]", "[#_\".foo\" \".bar\"]", "[\".foo\" #_\".bar\"]", "[.foo]", "[:foo]", "\".foo\"", "{\".foo\" \".bar\"}", "#{\".foo\"}", "nil", "1",
		"[\".foo\" 1]", "[\".foo\" [\".bar\"]]", "[nil]", ".foo", ":foo", "'(\".foo\")", "#(\".foo\")", "[\\f]", "[#\"x\"]", "#?(\".foo\")", "@[\".foo\"]"}
	indents := []string{"", "[]", "()"}
	for _, st := range styleNames {
		indents = append(indents, "[\"f\" :"+st+"]", "([\"f\" \"m.n/k\"] :"+st+")", "[(\"g\") :"+st+"]")
	}
	indents = append(indents, "[\"f\" :let \"g\" :cond1 [\"h\" \"let\"] :cond4]", "[[\"f\" \"g\"]:cond2,(\"h\"):for]", "[[] :let \"f\" :cond0]", "[\"f\" ;c\n :cond2 #_\"g\" #_:let]", "[[\"f\" #_\"g\"\n\"h\"] #_:let :cond4]",
		"[\"f\"]", "[\"f\" :let \"g\"]", "[:let \"f\"]", "[f :let]", "[\"f\" let]", "[\"f\" \"let\"]", "[\"f\" :bogus]", "[\"f\" :Let]", "[\"f\" ::let]", "[\"f\" :a/let]", "[\"f\" :cond3]", "[\"f\" :cond]", "[\"f\" :cond->]", "[\"f\" :list_body]",
		"{\"f\" :let}", "#{\"f\" :let}", "nil", "1", "\"f\"", ":let", "[[f] :let]", "[[\"f\" g] :let]", "[[[\"f\"]] :let]", "[{\"f\" \"g\"} :let]", "[#{\"f\"} :let]", "[\"f\" [:let]]", "[\"f\" nil]", "[\"f\" :let :g :let]", "[\"f\" :let [\"g\" 1] :let]",
		"[\"f\" :bogus \"g\" :let]", "[\"g\" :let \"f\" :bogus]", "[\"defx\" :normal]", "[\"x/f\" :let]", "[\"\" :let]", "[[\"f\"] :bogus]")
	threads := []string{"", "[]", "()", "[\"-?>\" :normal]", "[\"-?>\" :cond->]", "([\"-?>\" \"cond->\"] :normal)", "[(\"->\") :cond->]", "[\"m.n/->\" :cond-> \"->\" :normal]", "[\"-?>\" :cond]", "[\"-?>\" :list]", "[\"-?>\" normal]", "[\"-?>\"]",
		"{\"-?>\" :normal}", "[-?> :normal]", "[[-?>] :normal]", "nil", "\"->\"", "[\"-?>\" :normal \"->\"]", "[#_ \"x\" \"->\" #_ :x :cond->]", "[[\"a\" [\"b\"]] :normal]", "[\"-?>\" :cond->>]"}
	text := func(e, i, t string, order int) string {
		var parts []string
		for k, v := range []string{e, i, t} {
			if v != "" {
				parts = append(parts, []string{":extensions ", ":indent-overrides ", ":thread-first-overrides "}[k]+v)
			}
		}
		if len(parts) > 1 && order%2 == 1 {
			parts[0], parts[1] = parts[1], parts[0]
		}
		if len(parts) > 2 && order > 1 {
			parts[1], parts[2] = parts[2], parts[1]
		}
		return "{" + strings.Join(parts, []string{" ", ",\n ", " ;c\n", " #_:d "}[order]) + "}"
	}
	r.Space("values", "every value of every key, and pairs of them", mc.Size(len(exts), len(indents), len(threads)), func(c *mc.Case) {
		d := c.Dims(len(exts), len(indents), len(threads))
		zero := 0
		for _, x := range d {
			if x == 0 {
				zero++
			}
		}
		if zero == 0 && (!r.Thorough() || c.I%4 > 0) || zero == 1 && !r.Thorough() && (d[0]+d[1]+d[2])%4 > 0 {
			return
		}
		mode := int(c.I) % numProbeModes
		if zero >= 2 {
			for mode = 0; mode < numProbeModes; mode++ {
				judgeConfig(c, text(exts[d[0]], indents[d[1]], threads[d[2]], int(c.I)%4), mode)
			}
			return
		}
		judgeConfig(c, text(exts[d[0]], indents[d[1]], threads[d[2]], int(c.I)%4), mode)
	})
	// The names of several overrides.
	keys := []string{"\"f\"", "[\"f\"]", "[]", "()", "[\"g\" \"f\"]", "(\"g\")", "[#_\"f\"]", "[#_\"f\" \"h\"]", "\"m.n/k\"", "[\"let\" \"defx\" \"h\"]", "#_\"h\" \"g\"", "\"h\""}
	r.Space("names", "every three lists of names", mc.Size(len(keys), len(keys), len(keys), 2), func(c *mc.Case) {
		d := c.Dims(len(keys), len(keys), len(keys), 2)
		if !r.Thorough() && (d[0]+d[1]+d[2])%3 > 0 {
			return
		}
		if d[3] == 0 {
			judgeConfig(c, "{:indent-overrides ["+keys[d[0]]+" :cond1 "+keys[d[1]]+" :let "+keys[d[2]]+" :normal]}", int(c.I)%numProbeModes)
			return
		}
		names := strings.NewReplacer("\"f\"", "\"->\"", "\"g\"", "\"-?>\"", "\"h\"", "\"cond->\"")
		judgeConfig(c, "{:thread-first-overrides ["+names.Replace(keys[d[0]]+" :cond-> "+keys[d[1]]+" :normal "+keys[d[2]]+" :cond->")+"]}", int(c.I)%numProbeModes)
	})
	// The file as a whole.
	e := "{:extensions [\".foo\"]}"
	wholes := []string{"", " ", "\n", ";c", ";c\n", "#_x", "#_{} #_{}", "{}", "{ }", "{;c\n}", "{#_a}", "{#_a #_b}", "{} ;c", ";c\n{}", "#_{:bogus 1} " + e, e + " #_{:bogus 1}", e + " {}", e + e, "{} 1", "1 {}", "[]", "()", "#{}", "nil", "\"s\"", ":extensions", "1", "'" + e, "@" + e, "#(a)", "#_" + e,
		"[" + e + "]", "(" + e + ")", "{", "{:extensions", "{:extensions [", "{:extensions [\".foo\"", "{:extensions [\".foo\"]", e + "}", e + ")", e + "]", "}", ")", "]", "{]", "{:extensions [\".foo]}", "{:extensions}", "{:extensions :indent-overrides}", "{:extensions []} :a", "{:a}",
		"{:extensions [\".foo\"] :indent-overrides}", "{#_:extensions [\".foo\"]}", "{:extensions #_[] [\".foo\"]}", "{:extensions #_ #_ [] [\".bar\"] [\".foo\"]}", "{:extensions [\".foo\"] #_#_:bogus []}", "{#_#_:extensions [\".bar\"] :extensions [\".foo\"]}",
		"{:extension [\".foo\"]}", "{:exts []}", "{:Extensions [\".foo\"]}", "{::extensions [\".foo\"]}", "{:a/extensions [\".foo\"]}", "{:extensions. []}", "{:indent []}", "{:indents []}", "{:indent_overrides []}", "{:indent-override []}", "{:thread-first []}", "{:thread-first-override []}", "{:thread-last-overrides []}",
		"{:transforms []}", "{:extensions [\".foo\"] :bogus []}", "{:bogus [] :extensions [\".foo\"]}", "{:extensions [\".foo\"], :indent-overrides [\"f\" :let], :thread-first-overrides [\"-?>\" :normal], :x 1}", "{extensions [\".foo\"]:bogus 1}",
		"{:extensions\r\n[\".foo\"]}\r\n", "{:extensions\t(\n\".foo\",)}", "#!/bin/x\n" + e, "{:extensions [\".foo\"]\x00}", "{:extensions [\"\xff\"]", "\\", "{:extensions [\".foo\"]} \\", "{:extensions [\".foo\"]} ;\xff", "\x00", "{:extensions [\".foo\"] :indent-overrides [\"f\" :let}",
		"{:indent-overrides [;c\n[\"f\" ;c\n\"g\"] ;c\n:let ;c\n] ;c\n}", "{:indent-overrides [\n\"f\" :let\n\n\n\"g\" :for]}", "{:indent-overrides" + strings.Repeat(" ", 5000) + "[\"f\" :let]}", "{:indent-overrides [[" + strings.Repeat("\"x\" ", 2000) + "\"f\"] :let]}",
	}
	r.Space("whole", "files that aren't a map, are broken, have other keys", mc.Size(len(wholes), numProbeModes), func(c *mc.Case) {
		d := c.Dims(len(wholes), numProbeModes)
		judgeConfig(c, wholes[d[0]], d[1])
	})
	// Large files.
	var sizes []int
	for _, n := range []int{100, 255, 511, 1 << 10, 1 << 12, 1 << 13, 1 << 15, 1 << 16, 1 << 17} {
		sizes = append(sizes, n+1)
	}
	sizes = append(sizes, 1<<10, 1<<12, 1<<16)
	if r.Thorough() {
		sizes = append(sizes, 100000, 1<<20, 1<<20+1)
	}
	fill := []func(n int) string{
		func(n int) string { return strings.Repeat(" ", n) },
		func(n int) string { return strings.Repeat("\n", n) },
		func(n int) string { return ";" + strings.Repeat("c", n) + "\n" },
		func(n int) string { return strings.Repeat(";c\n", n/3) },
		func(n int) string { return "#_\"" + strings.Repeat("s", n) + "\" " },
		func(n int) string { return strings.Repeat("#_x ", n/4) },
	}
	inLists := []func(n int) string{
		func(n int) string { return "{:extensions [" + strings.Repeat("\".x\" ", n/5) + "\".foo\"]}" },
		func(n int) string {
			return "{:indent-overrides [" + strings.Repeat("\"x\" :let ", n/9) + "\"f\" :cond1]}"
		},
		func(n int) string { return "{:indent-overrides [[" + strings.Repeat("\"x\" ", n/4) + "\"f\"] :cond1]}" },
		func(n int) string {
			return "{:thread-first-overrides [\"" + strings.Repeat("x", n) + "\" :normal \"-?>\" :cond->]}"
		},
		func(n int) string {
			return "{:extensions [\".foo\"] :indent-overrides [\"" + strings.Repeat("f", n) + "\" :let \"g\" :for] #_" + strings.Repeat("[", n%1000) + strings.Repeat("]", n%1000) + " :thread-first-overrides []}"
		},
	}
	whole := "{!:extensions [!\".foo\" \".clj\"!] :indent-overrides [\"f\" ! :cond1]} !"
	r.Space("sizes", "large files", mc.Size(len(sizes), len(fill)*6+len(inLists), 2), func(c *mc.Case) {
		d := c.Dims(len(sizes), len(fill)*6+len(inLists), 2)
		n := sizes[d[0]]
		if d[1] >= len(fill)*6 {
			judgeConfig(c, inLists[d[1]-len(fill)*6](n), d[2]*onFileWrite)
			return
		}
		parts := strings.Split(whole, "!")
		at := d[1] % 6
		judgeConfig(c, strings.Join(parts[:at], "")+fill[d[1]/6](n)+strings.Join(parts[at:], ""), d[2]*onFileWrite)
	})
	tok := []string{"{", "}", "[", "]", ":extensions", "\".foo\"", ":indent-overrides", ":let", "#_", "x", ";c\n"}
	k := 3
	if r.Thorough() {
		k = 4
	}
	r.Seqs("tokens", "every sequence of tokens as a configuration file", tok, 1, k, func(c *mc.Case, parts []string) {
		judgeConfig(c, strings.Join(parts, " "), onDir)
	})
	r.Seqs("map", "every sequence of tokens in a map", tok, 1, 3, func(c *mc.Case, parts []string) {
		judgeConfig(c, "{"+strings.Join(parts, " ")+"}", onDir)
	})
	// Edits of a good file.
	good := "{:extensions [\".foo\" \".clj\"]\n :indent-overrides [[\"f\" \"m.n/k\"] :cond1 \"g\" :let]\n :thread-first-overrides (\"-?>\" :normal)}"
	ins := []string{"", " ", "}", "\"", "]", "(", "x", ":", "#", ";", "#_", "\n"}
	r.Space("edits", "a good file with anything inserted or replaced anywhere", mc.Size(len(good), len(ins), 2), func(c *mc.Case) {
		d := c.Dims(len(good), len(ins), 2)
		if !r.Thorough() && (d[0]+d[1]+d[2])%2 > 0 {
			return
		}
		text := good[:d[0]] + ins[d[1]] + good[d[0]+d[2]:]
		if strings.Contains(text, "#:") {
			return // a namespaced map
		}
		judgeConfig(c, text, []int{onDir, onDirWrite}[int(c.I)%2])
	})
	// What it is called.
	r.Space("called", "configuration files with special names, by flag and by environment", mc.Size(len(fileNames), 4, numProbeModes), func(c *mc.Case) {
		d := c.Dims(len(fileNames), 4, numProbeModes)
		if !r.Thorough() && d[2] != (d[0]+d[1])%numProbeModes {
			return
		}
		name := fileNames[d[0]]
		given := strings.ReplaceAll(name, "%", "%%")
		s, ok := readConfig(good)
		var args, env []string
		at := "w/" + name
		switch d[1] {
		case 0:
			args = []string{"-c", given}
		case 1:
			args = []string{"-c=" + given}
		case 2:
			args, at = []string{"-c", "%/e/" + given}, "e/"+name
		case 3:
			env = []string{"CLJFMT_CONFIG_PATH=" + given}
		}
		judgeSettings(c, "configuration in "+q(name), s, ok, d[2], args, env, map[string]string{at: good})
	})
	// Where it is found.
	const nothing = "nothing" // set, but empty
	flagAt := [][]string{nil, {"-c", "%/a"}, {"-c=%/a"}, {"--c", "%/a"}, {"-c", "%/none"}, {"-c", "%/broken"}, {"-c", "%/a", "-c", "%/b"}, {"-c", "%/broken", "-c", "%/b"}, {"-c", "%/a", "-c", "%/none"}, {"-c", "%/dir"}, {"-c", "../b"}, {"-c", "%/empty"}, {"-c="}, {"-c", "%/a", "-c", ""}, {"-c", "", "-c", "%/b"}}
	flagIs := []string{"", "a", "a", "a", "none", "broken", "b", "b", "none", "broken", "b", "none", "none", "none", "b"}
	envAt := []string{"", "%/b", "%/none", "%/broken", "../a", "%/dir", "%/empty", nothing}
	envIs := []string{"", "b", "none", "broken", "a", "broken", "none", "none"}
	homeAt := []string{"HOME", "HOME=%/home", "HOME=%/homec", "HOME=%/homebroken", "HOME=%/homedir", "HOME=%/nowhere", "HOME=../homec"}
	homeIs := []string{"none", "none", "c", "broken", "broken", "none", "c"}
	confs := map[string]string{"a": "{:extensions [\".foo\"]}", "b": "{:extensions [\".bar\"] :indent-overrides [\"f\" :cond1]}", "homec/.cljfmt": "{:indent-overrides [\"g\" :cond4]}", "broken": "{:extensions", "homebroken/.cljfmt": "[]", "homedir/.cljfmt/": "", "dir/": "", "empty": "",
		"w/.cljfmt": "{:extensions []}", "w/t/.cljfmt": "{:extensions []}", "home/.config": "{:extensions []}"}
	r.Space("where", "every combination of flag, environment and home directory", mc.Size(len(flagAt), len(envAt), len(homeAt), numProbeModes), func(c *mc.Case) {
		d := c.Dims(len(flagAt), len(envAt), len(homeAt), numProbeModes)
		if !r.Thorough() && (d[0]+d[1]+d[2]+d[3])%3 > 0 {
			return
		}
		chosen := homeIs[d[2]]
		if envIs[d[1]] != "" {
			chosen = envIs[d[1]]
		}
		if flagIs[d[0]] != "" {
			chosen = flagIs[d[0]]
		}
		s, ok := settingsFile{exts: defaultExts}, true
		switch chosen {
		case "a", "b":
			s, ok = readConfig(confs[chosen])
		case "c":
			s, ok = readConfig(confs["homec/.cljfmt"])
		case "broken":
			ok = false
		}
		env := []string{homeAt[d[2]]}
		if envAt[d[1]] != "" {
			env = append(env, "CLJFMT_CONFIG_PATH="+strings.TrimPrefix(envAt[d[1]], nothing))
		}
		judgeSettings(c, "configuration of "+chosen, s, ok, d[3], flagAt[d[0]], env, confs)
	})
}
