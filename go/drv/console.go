package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// consoleArea talks to the real console command, in a scratch directory of its own.
type consoleArea struct {
	dir, dat string
	p        *conversation
	marks    int
}

type conversation struct {
	cmd    *exec.Cmd
	stdin  io.WriteCloser
	chunks chan []byte
	buf    []byte
	closed bool
}

func init() {
	areas["console"] = func() area {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "console-")
		if err != nil {
			panic(err)
		}
		return &consoleArea{dir: dir, dat: filepath.Join(dir, ".data", "opencorpora", "opencorpora.dat")}
	}
}

var lastConsole *consoleArea

func (a *consoleArea) reset(rec Rec) {
	if lastConsole != nil {
		lastConsole.stop()
	}
	lastConsole = a
	rec["res"] = result(os.MkdirAll(filepath.Dir(a.dat), 0o755))
}

func (a *consoleArea) stop() {
	if a.p != nil {
		_ = a.p.stdin.Close()
		_ = a.p.cmd.Process.Kill()
		_ = a.p.cmd.Wait()
		a.p = nil
	}
}

func (a *consoleArea) start() {
	a.stop()
	cmd := exec.Command(os.Getenv("VERIF_CMD_CONSOLE"))
	cmd.Dir = a.dir
	cmd.Env = append(os.Environ(), "VERIF_LOG_STDERR=1", "TERM=dumb")
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.Stdout, cmd.Stderr = w, w
	stdin, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	if err = cmd.Start(); err != nil {
		panic(err)
	}
	_ = w.Close()
	c := &conversation{cmd: cmd, stdin: stdin, chunks: make(chan []byte, 64)}
	go func() {
		for {
			b := make([]byte, 1<<16)
			n, err := r.Read(b)
			if n > 0 {
				c.chunks <- b[:n]
			}
			if err != nil {
				close(c.chunks)
				_ = r.Close()
				return
			}
		}
	}()
	a.p = c
}

// await reads until the mark was quoted back in full line, or the end of the output.
func (a *consoleArea) await(mark string) (text string, res string) {
	c := a.p
	timeout := time.After(10 * time.Second)
	for {
		if mark != "" {
			if at := bytes.Index(c.buf, []byte(mark)); at >= 0 {
				if end := bytes.IndexByte(c.buf[at:], '\n'); end >= 0 {
					start := bytes.LastIndexByte(c.buf[:at], '\n') + 1
					text = string(c.buf[:start])
					c.buf = c.buf[at+end+1:]
					return text, "ok"
				}
			}
		}
		if c.closed {
			err := c.cmd.Wait()
			text, c.buf, a.p = string(c.buf), nil, nil
			switch {
			case err == nil:
				return text, "ended"
			case strings.Contains(text, "goroutine ") || !exited(err):
				return text, "died"
			}
			return text, "exit"
		}
		select {
		case b, ok := <-c.chunks:
			if !ok {
				c.closed = true
			}
			c.buf = append(c.buf, b...)
		case <-timeout:
			a.stop()
			return "", "hang"
		}
	}
}

func exited(err error) bool {
	x, ok := err.(*exec.ExitError)
	return ok && x.Exited()
}

func (a *consoleArea) say(line string) (text, res string) {
	a.marks++
	mark := fmt.Sprintf("~mark~%d~", a.marks)
	s := "tag " + mark + "\n"
	if line != "" || a.marks > 1 {
		s = line + "\n" + s
	}
	_, _ = io.WriteString(a.p.stdin, s)
	return a.await(mark)
}

var indexed = regexp.MustCompile(`indexed (\d+) words (\d+) nodes`)

func (a *consoleArea) do(rec Rec) {
	switch rec.str("op") {
	case "file":
		rec["res"] = "ok"
		_ = os.Remove(a.dat)
		if _, gone := rec["absent"]; !gone {
			rec["res"] = result(os.WriteFile(a.dat, rec.bytes("bytes"), 0o644))
		}
	case "start":
		a.start()
		a.marks = 0
		text, res := a.say("")
		if res == "ended" {
			res = "exit"
		}
		rec["res"] = res
		if m := indexed.FindStringSubmatch(text); m != nil {
			rec["wc"], rec["nc"] = number(m[1]), number(m[2])
		} else {
			rec["wc"], rec["nc"] = -1, -1
		}
	case "line":
		if a.p == nil {
			rec["res"], rec["obs"], rec["up"] = "gone", Rec{"k": "gone"}, false
			return
		}
		text, res := a.say(string(rec.runes("line")))
		rec["res"], rec["obs"] = res, understand(text)
		if res != "ok" || os.Getenv("VERIF_DEBUG") != "" {
			rec["msg"] = short(text)
		}
		rec["up"] = res == "ok"
		if res != "ok" { // another one goes on
			a.start()
			a.marks = 0
			_, res = a.say("")
			rec["up"] = res == "ok"
		}
	case "eof":
		if a.p == nil {
			rec["res"] = "ended"
			return
		}
		_ = a.p.stdin.Close()
		_, rec["res"] = a.await("")
	}
}

func number(s string) int {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || n > 1<<31-1 || n < -1<<31 {
		return -7
	}
	return int(n)
}

func listed(s, sep string) [][]int {
	res := make([][]int, 0)
	if s == "" {
		return res
	}
	for _, x := range strings.Split(s, sep) {
		res = append(res, bytesOf(x))
	}
	return res
}

func printedId(s string) []int {
	n, err := strconv.ParseUint(s, 10, 32)
	if err != nil {
		return []int{-1, -1}
	}
	return hilo(n)
}

var (
	reTagCount  = regexp.MustCompile(`(?m)^LOG info \S+ tag\.count: (\d+)$`)
	reTag       = regexp.MustCompile(`(?m)^LOG info \S+ tag\[([^\]]*)\] (.*)\((.*)\)$`)
	reTables    = regexp.MustCompile(`(?m)^LOG info \S+ set\.tables: total (\d+)\nLOG info \S+ set\.tables: (.*)$`)
	reTable     = regexp.MustCompile(`(?m)^LOG info \S+ set\.tables: (-?\d+): (.*)$`)
	reSet       = regexp.MustCompile(`(?m)^set\.(-?\d+)\(0x([0-9A-F]+)\): (.*)$`)
	reVar       = regexp.MustCompile(`(?m)^variant: (\d+): .*$`)
	reVarItem   = regexp.MustCompile(`(?m)^- \d+: (\d+): TS0*(\d+): (.*)$`)
	reVarBroken = regexp.MustCompile(`(?m)^- \d+: (\d+): !!!`)
	reNode      = regexp.MustCompile(`(?m)^Node: +(\d+)\nPrefix:   (.*)\nParent: +(\d+)\nVariants: (.*)$`)
	reNodeVar   = regexp.MustCompile(`^(\d+)\(0x([0-9A-F]+)\), (\d+) item\(s\): $`)
	reNodeSet   = regexp.MustCompile(`(?m)^- \d+: \((.*)\)$`)
	reNodeKid   = regexp.MustCompile(`(?m)^- (.)\[(\d+)\]: (\d+)$`)
	reNodeCount = regexp.MustCompile(`(?m)^LOG info \S+ node\.count: total (\d+)$`)
	reFound     = regexp.MustCompile(`(?m)^LOG info \S+ < \d+: (.*), eta \S+$`)
	reEmpty     = regexp.MustCompile(`(?m)^LOG info \S+ < empty, eta \S+$`)
	reNone      = regexp.MustCompile(`(?m)^LOG info \S+ < .*, eta \S+$`)
	reError     = regexp.MustCompile(`(?m)^LOG error `)
	reReloaded  = regexp.MustCompile(`(?m)^LOG info \S+ compiled index loaded`)
	reInline    = regexp.MustCompile(`(?m)^(- .+|variant.+)LOG (?:debug|info) .*$`)
	reSetText   = regexp.MustCompile(`TS\(([0-9,]*)\)`)
)

// understand makes a record of what the console printed for one line.
func understand(text string) Rec {
	text = reInline.ReplaceAllString(text, "$1")
	if reError.MatchString(text) {
		return Rec{"k": "err"}
	}
	if m := reNode.FindStringSubmatchIndex(text); m != nil {
		g := reNode.FindStringSubmatch(text)
		o := Rec{"k": "node", "id": number(g[1]), "w": runesOf(g[2]), "p": number(g[3]), "v": []int{0, 0},
			"sets": [][][]int{}, "kids": [][]int{}}
		rest := text[m[1]:]
		parts := strings.SplitN(rest, "\nChildren: ", 2)
		if v := reNodeVar.FindStringSubmatch(g[4]); v != nil {
			o["v"] = printedId(v[1])
			if x, err := strconv.ParseUint(v[2], 16, 32); err != nil || fmt.Sprint(hilo(x)) != fmt.Sprint(o["v"]) {
				o["v"] = []int{-2, -2}
			}
			sets := make([][][]int, 0)
			for _, s := range reNodeSet.FindAllStringSubmatch(parts[0], -1) {
				sets = append(sets, listed(s[1], ","))
			}
			o["sets"] = sets
			if len(sets) != number(v[3]) {
				o["v"] = []int{-3, -3}
			}
		} else if !strings.HasPrefix(g[4], "---") {
			o["v"] = []int{-1, -1}
		}
		kids := make([][]int, 0)
		if len(parts) == 2 {
			for _, s := range reNodeKid.FindAllStringSubmatch(parts[1], -1) {
				letter := []rune(s[1])
				if number(s[2]) != int(letter[0]) {
					letter[0] = -1
				}
				kids = append(kids, []int{int(letter[0]), number(s[3])})
			}
			if n := strings.SplitN(parts[1], " ", 2); len(kids) > 0 && n[0] != strconv.Itoa(len(kids)) {
				kids = append(kids, []int{-1, -1})
			}
		} else {
			kids = append(kids, []int{-2, -2})
		}
		o["kids"] = kids
		return o
	}
	if m := reVar.FindStringSubmatch(text); m != nil {
		list := make([]Rec, 0)
		for _, s := range reVarItem.FindAllStringSubmatch(text, -1) {
			id := printedId(s[1])
			if number(s[1]) != number(s[2]) {
				id = []int{-1, -1}
			}
			list = append(list, Rec{"id": id, "names": listed(s[3], ",")})
		}
		for _, s := range reVarBroken.FindAllStringSubmatch(text, -1) {
			list = append(list, Rec{"id": printedId(s[1]), "names": [][]int{{33}}})
		}
		return Rec{"k": "var", "id": number(m[1]), "l": list}
	}
	if m := reSet.FindStringSubmatch(text); m != nil {
		id := printedId(m[1])
		if x, err := strconv.ParseUint(m[2], 16, 32); err != nil || fmt.Sprint(hilo(x)) != fmt.Sprint(id) {
			id = []int{-1, -1}
		}
		return Rec{"k": "set", "id": id, "names": listed(m[3], ", ")}
	}
	if m := reTagCount.FindStringSubmatch(text); m != nil {
		return Rec{"k": "tagcount", "n": number(m[1])}
	}
	if m := reTag.FindStringSubmatch(text); m != nil {
		id, err := strconv.Atoi(m[1])
		if err != nil {
			id = -1
		}
		return Rec{"k": "tag", "id": id, "n": bytesOf(m[2]), "p": bytesOf(m[3])}
	}
	if m := reTables.FindStringSubmatch(text); m != nil {
		list := make([]int, 0)
		if m[2] != "" {
			for i, s := range strings.Split(m[2], ", ") {
				n := -1
				if p := regexp.MustCompile(`^0*(\d+)\((\d+)\)$`).FindStringSubmatch(s); p != nil && number(p[1]) == i {
					n = number(p[2])
				}
				list = append(list, n)
			}
		}
		if len(list) != number(m[1]) {
			list = append(list, -2)
		}
		return Rec{"k": "tables", "l": list}
	}
	if m := reTable.FindStringSubmatch(text); m != nil {
		list := make([][]int, 0)
		for _, s := range reSetText.FindAllStringSubmatch(m[2], -1) {
			set := make([]int, 0)
			for _, x := range strings.Split(s[1], ",") {
				if x != "" {
					set = append(set, number(x))
				}
			}
			list = append(list, set)
		}
		return Rec{"k": "table", "id": number(m[1]), "l": list}
	}
	if m := reNodeCount.FindStringSubmatch(text); m != nil {
		return Rec{"k": "nodecount", "n": number(m[1])}
	}
	if m := reFound.FindAllStringSubmatch(text, -1); m != nil {
		sets := make([][][]int, 0)
		for _, s := range m {
			sets = append(sets, listed(s[1], ","))
		}
		return Rec{"k": "found", "sets": sets}
	}
	if reEmpty.MatchString(text) {
		return Rec{"k": "empty"}
	}
	if reNone.MatchString(text) {
		return Rec{"k": "none"}
	}
	if reReloaded.MatchString(text) {
		return Rec{"k": "reload"}
	}
	return Rec{"k": "nothing"}
}
