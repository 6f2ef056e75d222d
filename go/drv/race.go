package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// Several updates at the same time, under a schedule: only one of them runs at any moment, up to the next of its
// calls that reads, examines or changes a file of the dictionary, or talks to the server.

const (
	sysConnect, sysStat, sysNewfstatat, sysStatx, sysLstat = 42, 4, 262, 332, 6
)

// turn says who goes on for how many of its calls; n < 0: to its end; kill: it is killed after that.
type turn struct {
	who, n int
	kill   bool
}

type runner struct {
	main    int // process, 0 before it is started
	held    int // thread that waits for its turn to go on, 0 if it is not held at a call
	over    bool
	exit    int
	killed  bool
	calls   []string
	threads map[int]*bool // inside a system call
	timer   *time.Timer
}

// touches describes the system call about to be made if it has to do with something below dir or with the server.
func touches(pid, tid int, dir string, regs *syscall.PtraceRegs) string {
	if name, _ := mutates(pid, tid, dir, regs); name != "" {
		return name
	}
	if reads(pid, tid, dir, regs) {
		return "read"
	}
	below := func(addr uint64) bool {
		p := peekString(tid, addr)
		if p != "" && !filepath.IsAbs(p) {
			cwd, _ := os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
			p = filepath.Join(cwd, p)
		}
		return strings.HasPrefix(p, dir+"/")
	}
	switch regs.Orig_rax {
	case sysConnect:
		return "connect"
	case sysStat, sysLstat:
		if below(regs.Rdi) {
			return "stat"
		}
	case sysNewfstatat, sysStatx:
		if below(regs.Rsi) {
			return "stat"
		}
	}
	return ""
}

// race runs the given commands under a schedule; between says that nobody is at work.
func race(argvs [][]string, env []string, cwd, dir string, plan []turn, between func(), limit time.Duration) (rs []*runner, err error) {
	done := make(chan struct{})
	go func() {
		runtime.LockOSThread()
		defer close(done)
		rs, err = raced(argvs, env, cwd, dir, plan, between, limit)
	}()
	<-done
	return rs, err
}

func raced(argvs [][]string, env []string, cwd, dir string, plan []turn, between func(), limit time.Duration) ([]*runner, error) {
	rs := make([]*runner, len(argvs))
	for i := range rs {
		rs[i] = &runner{threads: map[int]*bool{}}
	}
	for i := range argvs { // whatever the plan leaves
		plan = append(plan, turn{i, -1, false})
	}
	for _, t := range plan {
		r := rs[t.who]
		if r.over {
			continue
		}
		if r.main == 0 {
			if err := r.start(argvs[t.who], env, cwd, limit); err != nil {
				return rs, err
			}
		}
		if err := r.run(dir, t.n); err != nil {
			return rs, err
		}
		if t.kill && !r.over {
			_ = syscall.Kill(r.main, syscall.SIGKILL)
			if err := r.run(dir, -1); err != nil {
				return rs, err
			}
		}
		between()
	}
	return rs, nil
}

func (r *runner) start(argv, env []string, cwd string, limit time.Duration) error {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env, cmd.Dir = env, cwd
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return fmt.Errorf("start: %w", err)
	}
	r.main = cmd.Process.Pid
	main := r.main
	r.timer = time.AfterFunc(limit, func() { _ = syscall.Kill(main, syscall.SIGKILL) })
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(main, &ws, 0, nil); err != nil {
		return fmt.Errorf("wait: %w", err)
	}
	const traceExitKill = 0x100000
	if err := syscall.PtraceSetOptions(main, syscall.PTRACE_O_TRACECLONE|syscall.PTRACE_O_TRACESYSGOOD|traceExitKill); err != nil {
		return fmt.Errorf("options: %w", err)
	}
	r.held = main
	inside := false
	r.threads[main] = &inside
	return nil
}

// others holds what was reported of threads of processes whose turn it is not.
type report struct {
	tid int
	ws  syscall.WaitStatus
}

var (
	reportsMu sync.Mutex
	reports   []report
)

// run lets the process go on until it is about to make its n-th call from here, or to its end.
func (r *runner) run(dir string, n int) error {
	if n == 0 {
		return nil
	}
	if r.held != 0 {
		tid := r.held
		r.held = 0
		_ = syscall.PtraceSyscall(tid, 0)
	}
	for {
		tid, ws, err := r.next()
		if err != nil {
			return err
		}
		if ws.Exited() || ws.Signaled() {
			delete(r.threads, tid)
			if tid == r.main {
				r.over, r.exit = true, -1
				if ws.Exited() {
					r.exit = ws.ExitStatus()
				} else {
					r.killed = true
				}
				r.timer.Stop()
				return nil
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		inside := r.threads[tid]
		if inside == nil {
			inside = new(bool)
			r.threads[tid] = inside
		}
		sig := 0
		switch s := ws.StopSignal(); {
		case s == syscall.SIGTRAP|0x80:
			*inside = !*inside
			var regs syscall.PtraceRegs
			if !*inside || syscall.PtraceGetRegs(tid, &regs) != nil {
				break
			}
			what := touches(r.main, tid, dir, &regs)
			if what == "" {
				break
			}
			r.calls = append(r.calls, what)
			if n--; n == 0 {
				r.held = tid
				return nil
			}
		case s == syscall.SIGTRAP || s == syscall.SIGSTOP:
		default:
			sig = int(s)
		}
		_ = syscall.PtraceSyscall(tid, sig)
	}
}

// mine tells whether a thread belongs to the process.
func (r *runner) mine(tid int) bool {
	if tid == r.main || r.threads[tid] != nil {
		return true
	}
	_, err := os.Stat(fmt.Sprintf("/proc/%d/task/%d", r.main, tid))
	return err == nil
}

// next gives the next report about a thread of this process; those about others are kept for them.
func (r *runner) next() (int, syscall.WaitStatus, error) {
	reportsMu.Lock()
	defer reportsMu.Unlock()
	for i, x := range reports {
		if r.mine(x.tid) {
			reports = append(reports[:i], reports[i+1:]...)
			return x.tid, x.ws, nil
		}
	}
	for {
		var ws syscall.WaitStatus
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return 0, ws, fmt.Errorf("wait: %w", err)
		}
		if r.mine(tid) {
			return tid, ws, nil
		}
		reports = append(reports, report{tid, ws})
	}
}

// race lets several updates work at the same time and records what can be seen of the files in between.
func (a *updateArea) race(rec Rec) {
	var argvs [][]string
	forces, _ := rec["forces"].([]any)
	updates, readers := []any{}, map[int]string{}
	for i, f := range forces {
		if f == "load" { // somebody who loads the dictionary
			readers[i] = fmt.Sprintf("%s.loaded%d", a.root, i)
			self, err := os.Executable()
			if err != nil {
				panic(err)
			}
			argvs = append(argvs, []string{self, "readindex", a.dir, readers[i]})
			continue
		}
		updates = append(updates, f)
		argvs = append(argvs, []string{os.Getenv("VERIF_CMD_UPDATE"), fmt.Sprintf("-f=%v", f)})
	}
	rec["forces"] = updates
	var plan []turn
	list, _ := rec["turns"].([]any)
	for _, x := range list {
		m, _ := x.(map[string]any)
		t := Rec(m)
		plan = append(plan, turn{t.num("who", 0), t.num("n", -1), t.flag("kill")})
	}
	env := []string{"http_proxy=" + baseURL, "HTTP_PROXY=" + baseURL, "PATH=/usr/bin:/bin", "HOME=" + a.root, "GOMAXPROCS=2"}
	seen, before := []any{}, ""
	look := func() {
		s := Rec{}
		for _, f := range []string{"src", "xml", "dat"} {
			s[f] = -2
			if v, _, ok := a.fileState(f); ok {
				s[f] = v
			}
		}
		v, err := a.compiled()
		s["load"], s["v"] = result(err), v
		if now := fmt.Sprint(s); now != before {
			before = now
			seen = append(seen, s)
		}
	}
	rs, err := race(argvs, env, a.root, a.root, plan, look, 15*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, "race:", err)
		os.Exit(3)
	}
	reports = nil
	kills := false
	for _, t := range plan {
		kills = kills || t.kill
	}
	outs, calls := []string{}, []int{}
	for i, r := range rs {
		calls = append(calls, len(r.calls))
		if out := readers[i]; out != "" {
			var said struct {
				Load  string
				Words []string
			}
			b, err := os.ReadFile(out)
			_ = os.Remove(out)
			switch {
			case err == nil && json.Unmarshal(b, &said) == nil:
				seen = append(seen, Rec{"load": said.Load, "v": a.versionOf(said.Words)})
			case !r.killed || !kills:
				seen = append(seen, Rec{"load": "died", "v": 0})
			}
			continue
		}
		out := "died"
		switch {
		case r.killed && kills:
			out = "killed"
		case r.killed:
			out = "hang"
		case r.exit == 0:
			out = "ok"
		case r.exit == 1:
			out = "err"
		}
		outs = append(outs, out)
	}
	rec["outs"], rec["calls"], rec["seen"] = outs, calls, seen
	if rec.flag("log") {
		all := [][]string{}
		for _, r := range rs {
			all = append(all, r.calls)
		}
		rec["log"] = all
	}
	a.stamp(rec)
}

// together lets several updates of one process work at the same time, as often as told.
func (a *updateArea) together(rec Rec) {
	outs := []string{}
	seen := []any{}
	stop, watched := make(chan struct{}), make(chan struct{})
	go func() { // somebody who looks meanwhile
		defer close(watched)
		for {
			select {
			case <-stop:
				return
			default:
			}
			v, err := a.compiled()
			s := Rec{"load": result(err), "v": v}
			if len(seen) == 0 || fmt.Sprint(seen[len(seen)-1]) != fmt.Sprint(s) {
				seen = append(seen, s)
			}
		}
	}()
	forces, _ := rec["forces"].([]any)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, f := range forces {
		force, _ := f.(bool)
		wg.Add(1)
		loader := opencorpora.NewLoader(a.dir)
		if rec.flag("shared") {
			loader = a.loader
		}
		go func() {
			defer wg.Done()
			err := loader.Update(force)
			mu.Lock()
			defer mu.Unlock()
			outs = append(outs, result(err))
			if err != nil {
				rec["msg"] = short(err.Error())
			}
		}()
	}
	wg.Wait()
	close(stop)
	<-watched
	rec["outs"], rec["seen"] = outs, seen
	a.stamp(rec)
}
