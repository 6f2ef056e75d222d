// Command verifdrv executes scenario files against the real code and records what it observes.
// It contains no expectations: every verdict is taken by the TLA+ trace specifications.
//
//	verifdrv AREA SCENARIO.ndjson TRACE.ndjson [FIRST-LINE]
//
// Each scenario line is an operation; the same line extended with the observation is appended to
// the trace. A panic is recorded as res=panic, an operation that does not return as res=hang (the
// rest of the episode is then passed over).
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

// Rec is an operation and its observation.
type Rec map[string]any

type area interface {
	reset(Rec)
	do(Rec)
}

var areas = map[string]func() area{}

func (r Rec) str(key string) string {
	s, _ := r[key].(string)
	return s
}

func (r Rec) num(key string, def int) int {
	if f, ok := r[key].(float64); ok {
		return int(f)
	}
	return def
}

func (r Rec) flag(key string) bool {
	b, _ := r[key].(bool)
	return b
}

func (r Rec) has(key string) bool { _, ok := r[key]; return ok }

func ints(v any) []int {
	list, _ := v.([]any)
	res := make([]int, len(list))
	for i, x := range list {
		f, _ := x.(float64)
		res[i] = int(f)
	}
	return res
}

func (r Rec) ints(key string) []int { return ints(r[key]) }

func (r Rec) lists(key string) [][]int {
	list, _ := r[key].([]any)
	res := make([][]int, len(list))
	for i, x := range list {
		res[i] = ints(x)
	}
	return res
}

func (r Rec) bytes(key string) []byte { return toBytes(r.ints(key)) }
func (r Rec) runes(key string) []rune { return toRunes(r.ints(key)) }

func toBytes(l []int) []byte {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x)
	}
	return b
}

func toRunes(l []int) []rune {
	b := make([]rune, len(l))
	for i, x := range l {
		b[i] = rune(x)
	}
	return b
}

func bytesOf(s string) []int { return bytesList([]byte(s)) }

func bytesList(b []byte) []int {
	l := make([]int, len(b))
	for i := range b {
		l[i] = int(b[i])
	}
	return l
}

func runesOf(s string) []int {
	l := make([]int, 0, len(s))
	for _, x := range s {
		l = append(l, int(x))
	}
	return l
}

func runesList(b []rune) []int {
	l := make([]int, len(b))
	for i := range b {
		l[i] = int(b[i])
	}
	return l
}

// hilo splits a number into two which fit into TLC integers.
func hilo(x uint64) []int { return []int{int(x >> 16), int(x & 0xffff)} }

func fromHilo(l []int) uint64 { return uint64(l[0])<<16 | uint64(l[1]) }

func result(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

func guarded(rec Rec, f func(Rec)) {
	defer func() {
		if p := recover(); p != nil {
			rec["res"] = "panic"
			msg := fmt.Sprint(p)
			if len(msg) > 200 {
				msg = msg[:200]
			}
			rec["msg"] = msg
		}
	}()
	f(rec)
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) > 1 && subcommand(os.Args[1:]) {
		return
	}
	mk, ok := areas[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown area")
		os.Exit(3)
	}
	in, err := os.Open(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out, err := os.OpenFile(os.Args[3], os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	first := 0
	if len(os.Args) > 4 {
		first, _ = strconv.Atoi(os.Args[4])
	}
	timeout := 20 * time.Second
	if s := os.Getenv("VERIF_OP_TIMEOUT_S"); s != "" {
		n, _ := strconv.Atoi(s)
		timeout = time.Duration(n) * time.Second
	}

	lines := bufio.NewScanner(in)
	lines.Buffer(make([]byte, 1<<20), 1<<28)
	var a area
	passOver, hung := false, 0
	for n := 0; lines.Scan(); n++ {
		if n < first {
			continue
		}
		rec := Rec{}
		if err := json.Unmarshal(lines.Bytes(), &rec); err != nil {
			fmt.Fprintln(os.Stderr, "scenario:", err)
			os.Exit(3)
		}
		if rec.str("op") == "reset" {
			passOver, kept = hung > 2, nil // once it has hung often enough, nothing more is tried
			a = mk()
		}
		if passOver {
			rec = Rec{"op": "void"}
		} else {
			done := make(chan Rec, 1)
			go func(a area, rec Rec) {
				if rec.str("op") == "reset" {
					guarded(rec, a.reset)
				} else {
					guarded(rec, a.do)
				}
				done <- rec
			}(a, rec)
			select {
			case rec = <-done:
			case <-time.After(timeout):
				fresh := Rec{}
				_ = json.Unmarshal(lines.Bytes(), &fresh)
				fresh["res"] = "hang"
				rec = fresh
				passOver = true
				hung++
			}
		}
		b, err := json.Marshal(rec)
		if err != nil {
			fmt.Fprintln(os.Stderr, "trace:", err)
			os.Exit(3)
		}
		if _, err = out.Write(append(b, '\n')); err != nil {
			fmt.Fprintln(os.Stderr, "trace:", err)
			os.Exit(3)
		}
	}
}
