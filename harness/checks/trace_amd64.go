package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// A fsOp is a file-system call of a traced process below its working
// directory.
type fsOp struct {
	Call  string
	Path  string // of the file, or its old name
	Path2 string // the new name
	N     int    // bytes to be written or read
	Write bool   // changes something, or prepares to
	Ret   int64
}

func (o fsOp) String() string {
	s := o.Call + "(" + o.Path
	if o.Path2 != "" {
		s += ", " + o.Path2
	}
	if o.N > 0 {
		s += fmt.Sprintf(", %d bytes", o.N)
	}
	return s + ")"
}

// What can happen to a call.
const (
	actKill      = iota // the process dies before it
	actKillAfter        // the process dies right after it
	actError            // it fails
	actShort            // only the first k bytes are written or read
	actFull             // only the first k bytes are written; from then on, nothing can be written or created
)

// A fault is what happens to the at'th call.
type fault struct {
	at, act, k int
	errno      syscall.Errno
}

func (f fault) String() string {
	switch f.act {
	case actKill:
		return fmt.Sprintf("killed before call %d", f.at)
	case actKillAfter:
		if f.k > 0 {
			return fmt.Sprintf("killed after %d bytes of call %d", f.k, f.at)
		}
		return fmt.Sprintf("killed after call %d", f.at)
	case actError:
		return fmt.Sprintf("call %d fails: %s", f.at, f.errno)
	case actShort:
		return fmt.Sprintf("call %d takes only %d bytes", f.at, f.k)
	}
	return fmt.Sprintf("the disk is full after %d bytes of call %d", f.k, f.at)
}

type traced struct {
	ops            []fsOp
	exit           int // -1 if killed
	stdout, stderr string
}

type syscallInfo struct {
	Op   uint8
	_    [3]uint8
	Arch uint32
	IP   uint64
	SP   uint64
	// entry: nr and six arguments; exit: the result
	Data [8]uint64
}

// traceSupported reports whether processes can be traced here.
const traceSupported = true

// trace runs cljfmt in dir/w with the given faults.
func trace(dir string, args []string, faults []fault) (res traced, err error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	stdout, err := os.Create(filepath.Join(dir, "out"))
	if err != nil {
		return res, err
	}
	defer stdout.Close()
	stderr, err := os.Create(filepath.Join(dir, "err"))
	if err != nil {
		return res, err
	}
	defer stderr.Close()
	null, err := os.Open(os.DevNull)
	if err != nil {
		return res, err
	}
	defer null.Close()
	work := filepath.Join(dir, "w")
	pid, err := syscall.ForkExec(cljfmt(), append([]string{"cljfmt"}, args...), &syscall.ProcAttr{
		Dir:   work,
		Env:   []string{"HOME=" + filepath.Join(dir, "home"), "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=2"},
		Files: []uintptr{null.Fd(), stdout.Fd(), stderr.Fd()},
		Sys:   &syscall.SysProcAttr{Ptrace: true},
	})
	if err != nil {
		return res, err
	}
	timer := time.AfterFunc(60*time.Second, func() { syscall.Kill(pid, syscall.SIGKILL) })
	defer timer.Stop()
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, 0, nil); err != nil {
		return res, err
	}
	fail := func(err error) (traced, error) {
		syscall.Kill(pid, syscall.SIGKILL)
		for {
			if wpid, e := syscall.Wait4(-1, &ws, syscall.WALL|syscall.WNOTHREAD, nil); e != nil || wpid == pid && (ws.Exited() || ws.Signaled()) {
				return res, err
			}
		}
	}
	const exitKill, sysGood, clone = 0x100000, 1, 8
	if err := syscall.PtraceSetOptions(pid, exitKill|sysGood|clone); err != nil {
		return fail(err)
	}
	if err := syscall.PtraceSyscall(pid, 0); err != nil {
		return fail(err)
	}
	pending := map[int]func(ret int64){} // by thread: what to do when its call returns
	known := map[int]bool{pid: true}
	full := false
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL|syscall.WNOTHREAD, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return res, err
		}
		if ws.Exited() || ws.Signaled() {
			if tid == pid {
				res.exit = ws.ExitStatus()
				break
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := 0
		switch s := ws.StopSignal(); {
		case s == syscall.SIGTRAP|0x80:
			var info syscallInfo
			const getSyscallInfo = 0x420e
			if _, _, e := syscall.Syscall6(syscall.SYS_PTRACE, getSyscallInfo, uintptr(tid), unsafe.Sizeof(info), uintptr(unsafe.Pointer(&info)), 0, 0); e != 0 {
				if e == syscall.ESRCH {
					continue
				}
				return fail(e)
			}
			switch info.Op {
			case 1:
				if done := onEntry(&res, pid, tid, work, info.Data[0], info.Data[1:7], faults, &full); done != nil {
					pending[tid] = done
				}
			case 2:
				if done := pending[tid]; done != nil {
					delete(pending, tid)
					done(int64(info.Data[0]))
				}
			}
		case s == syscall.SIGTRAP && ws.TrapCause() > 0:
		case s == syscall.SIGSTOP && !known[tid]:
			known[tid] = true
		default:
			sig = int(s)
		}
		syscall.PtraceSyscall(tid, sig) // fails if it has been killed
	}
	b, _ := os.ReadFile(stdout.Name())
	res.stdout = string(b)
	b, _ = os.ReadFile(stderr.Name())
	res.stderr = string(b)
	os.Remove(stdout.Name())
	os.Remove(stderr.Name())
	return res, nil
}

// onEntry is called when a thread makes a call. It returns what to do when the
// call returns.
func onEntry(res *traced, pid, tid int, work string, nr uint64, args []uint64, faults []fault, full *bool) (done func(ret int64)) {
	str := func(addr uint64) string {
		var s []byte
		buf := make([]byte, 64)
		for len(s) < 4096 {
			n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(s)), buf)
			if i := bytes.IndexByte(buf[:n], 0); i >= 0 {
				return string(append(s, buf[:i]...))
			}
			if err != nil || n == 0 {
				return string(s)
			}
			s = append(s, buf[:n]...)
		}
		return string(s)
	}
	rel := func(p string) (string, bool) {
		if !filepath.IsAbs(p) {
			p = filepath.Join(work, p)
		}
		r, err := filepath.Rel(work, p)
		return r, err == nil && r != ".." && !strings.HasPrefix(r, "../")
	}
	fd := func(n uint64) (string, bool) {
		link, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(n)))
		if err != nil {
			return "", false
		}
		return rel(strings.TrimSuffix(link, " (deleted)"))
	}
	var op fsOp
	ok, ok2, counted, creates := false, true, -1, false
	path := func(call string, i int, write bool) {
		op.Call, op.Write = call, write
		op.Path, ok = rel(str(args[i]))
	}
	file := func(call string, write bool) {
		op.Call, op.Write = call, write
		op.Path, ok = fd(args[0])
	}
	opened := func(flags uint64) {
		op.Write = flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
		creates = flags&syscall.O_CREAT != 0
		if op.Write {
			op.Call += " for writing"
		}
	}
	switch nr {
	case syscall.SYS_OPEN:
		path("open", 0, false)
		opened(args[1])
	case syscall.SYS_OPENAT:
		path("open", 1, false)
		opened(args[2])
	case syscall.SYS_CREAT:
		path("creat", 0, true)
		creates = true
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		file("read", false)
		counted = 2
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		file("write", true)
		counted = 2
	case syscall.SYS_WRITEV:
		file("writev", true)
	case 326:
		file("copy_file_range", true)
	case syscall.SYS_CLOSE:
		file("close", false)
	case syscall.SYS_FSTAT:
		file("fstat", false)
	case syscall.SYS_STAT:
		path("stat", 0, false)
	case syscall.SYS_LSTAT:
		path("lstat", 0, false)
	case syscall.SYS_NEWFSTATAT:
		if path("stat", 1, false); str(args[1]) == "" {
			file("fstat", false)
		}
	case syscall.SYS_READLINK:
		path("readlink", 0, false)
	case syscall.SYS_READLINKAT:
		path("readlink", 1, false)
	case syscall.SYS_GETDENTS64:
		file("getdents", false)
	case syscall.SYS_FTRUNCATE:
		file("ftruncate", true)
	case syscall.SYS_FALLOCATE:
		file("fallocate", true)
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		file("fsync", true)
	case syscall.SYS_FCHMOD:
		file("fchmod", true)
	case syscall.SYS_FCHOWN:
		file("fchown", true)
	case syscall.SYS_TRUNCATE:
		path("truncate", 0, true)
	case syscall.SYS_CHMOD:
		path("chmod", 0, true)
	case syscall.SYS_FCHMODAT:
		path("chmod", 1, true)
	case syscall.SYS_UTIMENSAT:
		path("utimens", 1, true)
	case syscall.SYS_UNLINK:
		path("unlink", 0, true)
	case syscall.SYS_UNLINKAT:
		path("unlink", 1, true)
	case syscall.SYS_MKDIR:
		path("mkdir", 0, true)
		creates = true
	case syscall.SYS_MKDIRAT:
		path("mkdir", 1, true)
		creates = true
	case syscall.SYS_RENAME:
		path("rename", 0, true)
		op.Path2, ok2 = rel(str(args[1]))
	case syscall.SYS_RENAMEAT, 316:
		path("rename", 1, true)
		op.Path2, ok2 = rel(str(args[3]))
	case syscall.SYS_LINK:
		path("link", 0, true)
		op.Path2, ok2 = rel(str(args[1]))
		creates = true
	case syscall.SYS_LINKAT:
		path("link", 1, true)
		op.Path2, ok2 = rel(str(args[3]))
		creates = true
	}
	if !ok && !(op.Path2 != "" && ok2) {
		return nil
	}
	if counted >= 0 {
		op.N = int(args[counted])
	}
	i := len(res.ops)
	res.ops = append(res.ops, op)
	note := func(ret int64) {
		if i < len(res.ops) {
			res.ops[i].Ret = ret
		}
	}
	regs := func(change func(*syscall.PtraceRegs)) {
		var r syscall.PtraceRegs
		if syscall.PtraceGetRegs(tid, &r) == nil {
			change(&r)
			syscall.PtraceSetRegs(tid, &r)
		}
	}
	skip := func() { regs(func(r *syscall.PtraceRegs) { r.Orig_rax = ^uint64(0) }) }
	kill := func() { syscall.Kill(pid, syscall.SIGKILL) }
	result := func(errno syscall.Errno) func(int64) {
		return func(int64) {
			note(-int64(errno))
			regs(func(r *syscall.PtraceRegs) { r.Rax = uint64(-int64(errno)) })
		}
	}
	cut := func(k int) {
		if counted == 2 {
			regs(func(r *syscall.PtraceRegs) { r.Rdx = uint64(k) })
		}
	}
	writes := op.Call == "write" || op.Call == "writev" || op.Call == "copy_file_range" || op.Call == "fallocate"
	if *full && (writes || creates && notThere(filepath.Join(work, op.Path))) {
		skip()
		return result(syscall.ENOSPC)
	}
	for _, f := range faults {
		if f.at != i {
			continue
		}
		switch f.act {
		case actKill:
			skip()
			kill()
			return nil
		case actKillAfter:
			if f.k > 0 {
				cut(f.k)
			}
			return func(ret int64) { note(ret); kill() }
		case actError:
			if op.Call != "close" { // which closes the file nonetheless
				skip()
			}
			return result(f.errno)
		case actShort:
			cut(f.k)
			return note
		case actFull:
			*full = true
			if f.k == 0 {
				skip()
				return result(syscall.ENOSPC)
			}
			cut(f.k)
			return note
		}
	}
	return note
}

func notThere(path string) bool {
	_, err := os.Lstat(path)
	return err != nil
}
