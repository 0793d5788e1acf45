package checks

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/mc"
)

// A cliRun is a run of cljfmt in a scratch directory that is removed
// afterwards.
type cliRun struct {
	args  []string
	stdin string
	// env is added to HOME, which is an empty directory unless given.
	env []string
	// files are created before; a name that ends in / is a directory. "%"
	// in args and env stands for the scratch directory, "%%" for itself.
	files map[string]string
	modes map[string]os.FileMode
	dir   string // an existing scratch directory (kept)
	// via is a command to run cljfmt with.
	via []string
	// out is where standard output goes, instead of being collected.
	out *os.File
}

type cliResult struct {
	exit           int
	stdout, stderr string
	files          map[string]string // afterwards; directories have names that end in /
	modes          map[string]os.FileMode
}

func cljfmt() string { return filepath.Join(os.Getenv("VERIF_BIN"), "cljfmt") }

// scratch makes a scratch directory with files in it.
func scratch(files map[string]string, modes map[string]os.FileMode) (dir string, err error) {
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	dir, err = ioutil.TempDir(base, "cljfmt-check-")
	if err != nil {
		return "", err
	}
	os.Mkdir(filepath.Join(dir, "home"), 0o755)
	os.Mkdir(filepath.Join(dir, "w"), 0o755)
	var names []string
	for name := range files {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		path := filepath.Join(dir, name)
		if strings.HasSuffix(name, "/") {
			err = os.MkdirAll(path, 0o755)
		} else {
			os.MkdirAll(filepath.Dir(path), 0o755)
			err = os.WriteFile(path, []byte(files[name]), 0o644)
			if m, ok := modes[name]; ok && err == nil {
				err = os.Chmod(path, m)
			}
		}
		if err != nil {
			return dir, err
		}
	}
	return dir, nil
}

// runCLI runs cljfmt. The working directory is w in the scratch directory.
func runCLI(c *mc.Case, run cliRun) (res cliResult) {
	dir := run.dir
	if dir == "" {
		var err error
		dir, err = scratch(run.files, run.modes)
		if dir != "" {
			defer os.RemoveAll(dir)
		}
		if err != nil {
			panic(err)
		}
	}
	subst := func(list []string) []string {
		var out []string
		for _, s := range list {
			s = strings.ReplaceAll(strings.ReplaceAll(s, "%%", "\x00"), "%", dir)
			out = append(out, strings.ReplaceAll(s, "\x00", "%"))
		}
		return out
	}
	argv := append(append(subst(run.via), cljfmt()), subst(run.args)...)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = filepath.Join(dir, "w")
	cmd.Env = subst(run.env)
	home := false
	for _, e := range run.env {
		home = home || strings.HasPrefix(e, "HOME")
	}
	if !home {
		cmd.Env = append(cmd.Env, "HOME="+filepath.Join(dir, "home"))
	}
	for i, e := range cmd.Env {
		if e == "HOME" { // unset
			cmd.Env = append(cmd.Env[:i], cmd.Env[i+1:]...)
			break
		}
	}
	var stdout, stderr bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = strings.NewReader(run.stdin), &stdout, &stderr
	if run.out != nil {
		cmd.Stdout = run.out
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	timer := time.AfterFunc(45*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	if c != nil {
		c.Trans(1)
	}
	res.exit = cmd.ProcessState.ExitCode()
	res.stdout = strings.ReplaceAll(stdout.String(), dir, "%")
	res.stderr = strings.ReplaceAll(stderr.String(), dir, "%")
	res.files, res.modes = snapshot(dir)
	return res
}

// snapshot reads a scratch directory.
func snapshot(dir string) (files map[string]string, modes map[string]os.FileMode) {
	files, modes = map[string]string{}, map[string]os.FileMode{}
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		name, _ := filepath.Rel(dir, path)
		switch {
		case info.IsDir():
			files[name+"/"] = ""
		case info.Mode().IsRegular():
			b, err := os.ReadFile(path)
			if err != nil {
				b = []byte("unreadable: " + err.Error())
			}
			files[name] = string(b)
			modes[name] = info.Mode()
		case info.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(path)
			files[name] = "-> " + to
		default:
			files[name] = info.Mode().String()
		}
		return nil
	})
	return files, modes
}

// changed describes how files differ from what they should be.
func changed(got, want map[string]string) string {
	var names []string
	for name := range got {
		names = append(names, name)
	}
	for name := range want {
		if _, ok := got[name]; !ok {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	var out []string
	for _, name := range names {
		g, gok := got[name]
		w, wok := want[name]
		switch {
		case !gok:
			out = append(out, name+" is gone")
		case !wok && name != "./" && name != "home/" && name != "w/":
			out = append(out, fmt.Sprintf("there is a new %s (%s)", name, q(g)))
		case wok && g != w:
			out = append(out, fmt.Sprintf("%s is %s, want %s", name, q(g), q(w)))
		}
	}
	return strings.Join(out, "; ")
}
