package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// fault says what to do at the n-th system call of a child that changes something below dir.
type fault struct {
	kind string // "" (count only), "kill" (before the call), "fail" (the call fails), "full" (it and every later write fails), "short" (half is written, later writes fail), "rfail" (the n-th read fails)
	n    int
	err  syscall.Errno
}

// faulted is what became of a child run under a fault.
type faulted struct {
	exit   int // exit status, -1 when killed
	fired  bool
	calls  []string // calls that change something
	killed bool
}

const (
	sysWrite, sysPwrite, sysOpen, sysClose, sysRename, sysUnlink, sysMkdir, sysFtruncate   = 1, 18, 2, 3, 82, 87, 83, 77
	sysOpenat, sysMkdirat, sysUnlinkat, sysRenameat, sysRenameat2, sysLinkat, sysSymlinkat = 257, 258, 263, 264, 316, 265, 266
	sysSplice, sysSendfile, sysCopyRange, sysWritev, sysPwritev, sysUtimensat, sysFsync    = 275, 40, 326, 20, 296, 280, 74
	sysRead, sysPread                                                                      = 0, 17
	sysFdatasync, sysFchmod, sysFchmodat, sysFallocate, sysTruncate, sysCreat              = 75, 91, 268, 285, 76, 85
)

func peekString(pid int, addr uint64) string {
	var out []byte
	buf := make([]byte, 8)
	for len(out) < 4096 {
		if _, err := syscall.PtracePeekData(pid, uintptr(addr)+uintptr(len(out)), buf); err != nil {
			break
		}
		for _, b := range buf {
			if b == 0 {
				return string(out)
			}
			out = append(out, b)
		}
	}
	return string(out)
}

// mutates describes the system call about to be made if it changes something below dir.
func mutates(pid, tid int, dir string, regs *syscall.PtraceRegs) (name string, isWrite bool) {
	under := func(p string) bool {
		if !filepath.IsAbs(p) {
			cwd, _ := os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
			p = filepath.Join(cwd, p)
		}
		return p == dir || strings.HasPrefix(p, dir+"/")
	}
	byFd := func(what string, fd uint64, w bool) (string, bool) {
		p, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(fd)))
		if err != nil || !filepath.IsAbs(p) || !under(p) {
			return "", false
		}
		return what + " " + filepath.Base(p), w
	}
	byPath := func(what string, addr uint64) (string, bool) {
		p := peekString(tid, addr)
		if !under(p) {
			return "", false
		}
		return what + " " + filepath.Base(p), false
	}
	const writing = syscall.O_WRONLY | syscall.O_RDWR | syscall.O_CREAT | syscall.O_TRUNC
	switch regs.Orig_rax {
	case sysWrite, sysPwrite, sysWritev, sysPwritev:
		return byFd("write", regs.Rdi, true)
	case sysSendfile:
		return byFd("write", regs.Rdi, true)
	case sysSplice, sysCopyRange:
		return byFd("write", regs.Rdx, true)
	case sysFtruncate, sysFallocate:
		return byFd("truncate", regs.Rdi, false)
	case sysFsync, sysFdatasync:
		return byFd("sync", regs.Rdi, false)
	case sysClose:
		fl := regs.Rdi
		link, err := os.ReadFile(fmt.Sprintf("/proc/%d/fdinfo/%d", pid, int32(fl)))
		if err != nil || !writable(string(link)) {
			return "", false
		}
		return byFd("close", regs.Rdi, false)
	case sysOpenat:
		if regs.Rdx&writing == 0 {
			return "", false
		}
		return byPath("open", regs.Rsi)
	case sysOpen:
		if regs.Rsi&writing == 0 {
			return "", false
		}
		return byPath("open", regs.Rdi)
	case sysCreat:
		return byPath("open", regs.Rdi)
	case sysTruncate:
		return byPath("truncate", regs.Rdi)
	case sysRename:
		return byPath("rename", regs.Rdi)
	case sysRenameat, sysRenameat2, sysLinkat:
		return byPath("rename", regs.Rsi)
	case sysSymlinkat:
		return byPath("symlink", regs.Rdx)
	case sysUnlink:
		return byPath("unlink", regs.Rdi)
	case sysUnlinkat:
		return byPath("unlink", regs.Rsi)
	case sysMkdir:
		return byPath("mkdir", regs.Rdi)
	case sysMkdirat:
		return byPath("mkdir", regs.Rsi)
	case sysUtimensat:
		return byPath("utime", regs.Rsi)
	case sysFchmodat:
		return byPath("chmod", regs.Rsi)
	}
	return "", false
}

// reads tells whether the system call about to be made reads a file below dir.
func reads(pid, tid int, dir string, regs *syscall.PtraceRegs) bool {
	const writing = syscall.O_WRONLY | syscall.O_RDWR | syscall.O_CREAT | syscall.O_DIRECTORY
	p := ""
	switch regs.Orig_rax {
	case sysRead, sysPread:
		p, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(regs.Rdi)))
	case sysOpenat:
		if regs.Rdx&writing == 0 {
			p = peekString(tid, regs.Rsi)
			if p != "" && !filepath.IsAbs(p) {
				cwd, _ := os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
				p = filepath.Join(cwd, p)
			}
		}
	}
	return strings.HasPrefix(p, dir+"/")
}

func writable(fdinfo string) bool {
	for _, line := range strings.Split(fdinfo, "\n") {
		var flags uint64
		if n, _ := fmt.Sscanf(line, "flags: %o", &flags); n == 1 {
			return flags&3 != 0
		}
	}
	return false
}

// underFault runs a child of our own and interferes with what it does to files below dir.
func underFault(argv, env []string, cwd, dir string, f fault, limit time.Duration) (res faulted, err error) {
	done := make(chan struct{})
	go func() {
		runtime.LockOSThread() // requests must come from the thread that started the child
		defer close(done)
		res, err = traced(argv, env, cwd, dir, f, limit)
	}()
	<-done
	return res, err
}

func traced(argv, env []string, cwd, dir string, f fault, limit time.Duration) (res faulted, err error) {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env, cmd.Dir = env, cwd
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}
	if err = cmd.Start(); err != nil {
		return res, fmt.Errorf("start: %w", err)
	}
	main := cmd.Process.Pid
	timer := time.AfterFunc(limit, func() { _ = syscall.Kill(main, syscall.SIGKILL) })
	defer timer.Stop()
	var ws syscall.WaitStatus
	if _, err = syscall.Wait4(main, &ws, 0, nil); err != nil {
		return res, fmt.Errorf("wait: %w", err)
	}
	const traceExitKill = 0x100000
	opts := syscall.PTRACE_O_TRACECLONE | syscall.PTRACE_O_TRACESYSGOOD | traceExitKill
	if err = syscall.PtraceSetOptions(main, opts); err != nil {
		_ = syscall.Kill(main, syscall.SIGKILL)
		return res, fmt.Errorf("options: %w", err)
	}
	type state struct {
		inside bool
		errno  syscall.Errno // to be given at exit
	}
	threads := map[int]*state{main: {}}
	count, allWrites := 0, false
	_ = syscall.PtraceSyscall(main, 0)
	for {
		tid, werr := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if werr == syscall.EINTR {
			continue
		}
		if werr != nil {
			return res, fmt.Errorf("wait: %w", werr)
		}
		if ws.Exited() || ws.Signaled() {
			delete(threads, tid)
			if tid == main {
				res.exit = -1
				if ws.Exited() {
					res.exit = ws.ExitStatus()
				} else {
					res.killed = true
				}
				return res, nil
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		st := threads[tid]
		if st == nil {
			st = &state{}
			threads[tid] = st
		}
		sig := 0
		switch s := ws.StopSignal(); {
		case s == syscall.SIGTRAP|0x80: // a system call
			st.inside = !st.inside
			var regs syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &regs) != nil {
				break
			}
			if !st.inside {
				if st.errno != 0 {
					regs.Rax = uint64(-int64(st.errno))
					_ = syscall.PtraceSetRegs(tid, &regs)
					st.errno = 0
				}
				break
			}
			if f.kind == "rfail" {
				if !reads(main, tid, dir, &regs) {
					break
				}
				if count++; count == f.n {
					res.fired = true
					regs.Orig_rax = ^uint64(0)
					_ = syscall.PtraceSetRegs(tid, &regs)
					st.errno = f.err
				}
				break
			}
			name, isWrite := mutates(main, tid, dir, &regs)
			if name == "" {
				break
			}
			count++
			res.calls = append(res.calls, name)
			hit := count == f.n || (allWrites && isWrite)
			if !hit {
				break
			}
			switch f.kind {
			case "kill":
				res.fired = true
				_ = syscall.Kill(main, syscall.SIGKILL)
			case "fail", "full", "short":
				if f.kind != "fail" && !isWrite {
					f.n++ // the next one then
					break
				}
				res.fired = true
				if f.kind == "short" && !allWrites && regs.Orig_rax == sysWrite && regs.Rdx > 1 {
					regs.Rdx /= 2
					_ = syscall.PtraceSetRegs(tid, &regs)
					allWrites = true
					break
				}
				allWrites = f.kind != "fail"
				if regs.Orig_rax == sysClose {
					st.errno = f.err // closed all the same
					break
				}
				regs.Orig_rax = ^uint64(0)
				_ = syscall.PtraceSetRegs(tid, &regs)
				st.errno = f.err
			}
		case s == syscall.SIGTRAP || s == syscall.SIGSTOP:
			// a new thread, or its first stop
		default:
			sig = int(s)
		}
		_ = syscall.PtraceSyscall(tid, sig)
	}
}
