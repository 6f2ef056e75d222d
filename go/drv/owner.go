package main

import (
	"reflect"
	"sync/atomic"

	"github.com/amarin/gomorphy/pkg/dag"
)

// What is lent to the code and what is received from it belongs to the caller: under "vandal" it is
// scribbled over once an operation is recorded. Whether the code changed what it was lent is noted.
var (
	vandal      bool
	argsChanged atomic.Bool
	scribbles   []func()

	keeping bool
	kept    []keptAnswer
)

// An answer kept by the caller: what it said, and what it says later.
type keptAnswer struct {
	then any
	now  func() any
}

func beginOp(rec Rec) {
	vandal, scribbles = rec.flag("vandal"), nil
	argsChanged.Store(false)
	keeping = rec.flag("keep")
}

// keep remembers an answer: f describes it, now and later.
func keep(f func() any) {
	if keeping {
		kept = append(kept, keptAnswer{f(), f})
	}
}

// keptNow gives the answers kept, as they were and as they are.
func keptNow(rec Rec) {
	then, now := make([]any, 0), make([]any, 0)
	for _, k := range kept {
		then, now = append(then, k.then), append(now, k.now())
	}
	rec["then"], rec["now"], rec["res"] = then, now, "ok"
}

func endOp(rec Rec) {
	if argsChanged.Load() {
		rec["args"] = "changed"
	}
	for _, f := range scribbles {
		f()
	}
	vandal, scribbles = false, nil
}

// lend gives f a slice with room behind it, and checks that it comes back as it was.
func lend[T comparable](s []T, junk T, f func([]T)) {
	given := make([]T, len(s), len(s)+2)
	copy(given, s)
	f(given)
	behind := given[:cap(given)]
	for i := range behind {
		var want T
		if i < len(s) {
			want = s[i]
		}
		if behind[i] != want {
			argsChanged.Store(true)
		}
	}
	if vandal {
		scribbles = append(scribbles, func() {
			for i := range behind {
				behind[i] = junk
			}
		})
	}
}

// received notes an answer, which is the caller's.
func received(x any) {
	if !vandal {
		return
	}
	scribbles = append(scribbles, func() {
		junk := dag.Tag{Name: "!!!!", Parent: "????"}
		switch v := x.(type) {
		case []dag.TagSet:
			for i := range v {
				for j := range v[i] {
					v[i][j] = junk
				}
				_ = append(v[i], junk)
				v[i] = nil
			}
			_ = append(v, dag.TagSet{junk})
		case dag.TagSet:
			for j := range v {
				v[j] = junk
			}
			_ = append(v, junk)
		case dag.NodeMap:
			for k := range v {
				delete(v, k)
			}
			v['!'] = nil
		default:
			l := reflect.ValueOf(x)
			for i := 0; i < l.Len(); i++ {
				l.Index(i).Set(reflect.Zero(l.Type().Elem()))
			}
		}
	})
}
