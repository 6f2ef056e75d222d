package main

import (
	"bytes"
	"encoding/json"
	"runtime"
	"sync"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
)

// concArea runs readers of an index, and creators of nodes, side by side.
type concArea struct {
	*indexArea
	stores map[string]*index.Items
}

func init() {
	areas["conc"] = func() area {
		a := areas["index"]().(*indexArea)
		return &concArea{indexArea: a, stores: map[string]*index.Items{}}
	}
}

func (a *concArea) do(rec Rec) {
	switch rec.str("op") {
	case "par":
		beginOp(rec)
		defer endOp(rec)
		a.par(rec)
	case "items":
		a.stores[rec.str("s")] = index.NewItems()
		rec["res"] = "ok"
	case "itemsagain": // written and read back
		buffer := new(bytes.Buffer)
		if err := a.stores[rec.str("s")].BinaryWriteTo(binutils.NewBinaryWriter(buffer)); err != nil {
			rec["res"] = "err"
			return
		}
		items := index.NewItems()
		if err := items.BinaryReadFrom(binutils.NewBinaryReader(buffer)); err != nil {
			rec["res"] = "err"
			return
		}
		a.stores[rec.str("s")] = items
		rec["res"] = "ok"
	case "make":
		a.make(rec)
	default:
		a.indexArea.do(rec)
	}
}

// read performs one reading operation.
func (a *concArea) read(rec Rec) {
	idx := a.handle(rec, "h")
	switch rec.str("op") {
	case "fetch", "dump", "resave", "chain":
		a.perform(rec)
	case "path": // from the root, child by child
		var node dag.Node
		children := idx.Children()
		rec["res"] = "ok"
		for _, letter := range rec.runes("w") {
			var found bool
			if node, found = children[letter]; !found {
				rec["res"] = "err"
				return
			}
			if id, ok := idx.GetChildrenIDMap(parentOf(node))[letter]; !ok || int(id) != idOf(node) {
				rec["res"] = "differ"
				return
			}
			children = idx.GetChildrenMap(node.(*index.Node).Id())
		}
		a.node(rec, idx, node)
	case "held": // a node kept since it was added
		node := a.held[rec.str("h")+"/"+string(rec.runes("w"))]
		if node == nil {
			rec["res"] = "err"
			return
		}
		a.node(rec, idx, node)
	case "counts":
		rec["nc"], rec["wc"] = idx.NodesCount(), idx.WordsCount()
		tags := make([][][]int, 0)
		for _, t := range idx.Tags() {
			tags = append(tags, [][]int{bytesOf(string(t.Name)), bytesOf(string(t.Parent))})
		}
		rec["tags"] = tags
		rec["res"] = "ok"
	default:
		rec["res"] = "unknown"
	}
}

func parentOf(node dag.Node) dag.ID { return node.(*index.Node).Item().Parent }

func (a *concArea) node(rec Rec, idx *index.Index, node dag.Node) {
	nodeObs(rec, node, nil)
	rec["sets"] = setsOf(node.TagSets())
	_ = node.(*index.Node).String()
	if again, err := idx.Get(dag.ID(idOf(node))); err != nil || again.Word() != node.Word() {
		rec["res"] = "differ"
	}
}

// par has several goroutines read one index at the same time (or, with seq, one after another) and
// records every different observation made.
func (a *concArea) par(rec Rec) {
	threads, _ := rec["threads"].([]any)
	rounds := rec.num("rounds", 1)
	seq := rec.flag("seq")
	if seq {
		rounds = 1
	}
	var mu sync.Mutex
	seen := map[string]bool{}
	obs := []any{}
	done := 0
	one := func(round, t int) {
		ops, _ := threads[t].([]any)
		for i := range ops {
			in, _ := ops[(i+round)%len(ops)].(map[string]any)
			sub := Rec{}
			for k, v := range in {
				sub[k] = v
			}
			sub["h"] = rec["h"]
			guarded(sub, a.read)
			b, err := json.Marshal(sub)
			mu.Lock()
			done++
			if err != nil {
				obs = append(obs, Rec{"op": sub["op"], "h": rec["h"], "res": "unprintable"})
			} else if !seen[string(b)] {
				seen[string(b)] = true
				obs = append(obs, json.RawMessage(b))
			}
			mu.Unlock()
			if !seq && (i+t)%3 == 0 {
				runtime.Gosched()
			}
		}
	}
	for round := 0; round < rounds; round++ {
		if seq {
			for t := range threads {
				one(round, t)
			}
			continue
		}
		var wg sync.WaitGroup
		barrier := make(chan struct{})
		for t := range threads {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				<-barrier
				one(round, t)
			}(t)
		}
		close(barrier)
		wg.Wait()
	}
	rec["res"], rec["obs"], rec["done"] = "ok", obs, done
	rec["threads"] = len(threads) // no need to carry them any further
}

// make has several goroutines create nodes at the same time.
func (a *concArea) make(rec Rec) {
	items := a.stores[rec.str("s")]
	counts := rec.ints("counts")
	first := int(items.NextID())
	made := make([][][]int, len(counts))
	failed := make([]Rec, len(counts))
	var wg sync.WaitGroup
	barrier := make(chan struct{})
	for t := range counts {
		wg.Add(1)
		made[t] = make([][]int, 0, counts[t])
		failed[t] = Rec{}
		go func(t int) {
			defer wg.Done()
			<-barrier
			guarded(failed[t], func(Rec) {
				for k := 1; k <= counts[t]; k++ {
					item := items.NewChild(dag.ID(10000*(t+1)+k), rune(1000*(t+1)+k))
					made[t] = append(made[t], []int{int(item.ID), int(item.Parent), int(item.Letter), int(item.Variants)})
					if rec.flag("yield") {
						runtime.Gosched()
					}
				}
			})
		}(t)
	}
	close(barrier)
	wg.Wait()
	rec["res"] = "ok"
	for _, f := range failed {
		if f["res"] != nil {
			rec["res"] = f["res"]
		}
	}
	stored := make([][]int, 0)
	for id := 1; id < int(items.NextID()) && id < first+200000; id++ {
		item := items.Get(dag.ID(id))
		if item == nil {
			stored = append(stored, []int{-1, -1, -1, -1})
			continue
		}
		stored = append(stored, []int{int(item.ID), int(item.Parent), int(item.Letter), int(item.Variants)})
	}
	rec["first"], rec["next"], rec["made"], rec["stored"] = first, int(items.NextID()), made, stored
	rec["beyond"] = items.Get(items.NextID()) != nil || items.Get(0) != nil
}
