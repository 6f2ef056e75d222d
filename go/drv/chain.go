package main

import (
	"sort"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/storage"
)

func pairOf(id uint32) []int { return []int{int(id >> 16), int(id & 0xFFFF)} }

func tagNumbers(set index.TagSet) []int {
	res := make([]int, len(set))
	for i, id := range set {
		res[i] = int(id)
	}
	return res
}

// chain follows identifiers: combinations to tag sets, tag sets to tags, tags to names, and tries others.
func (a *indexArea) chain(rec Rec, idx *index.Index) {
	sets := idx.TagSetIndex()
	listed := make([][]any, 0)
	maxHi, maxLo := 0, 0
	ids := sets.TableIDs()
	received(ids)
	for _, id := range ids {
		set, found := sets.Get(id)
		tags, err := idx.TagSet(set)
		received(tags)
		keep(func() any { return setsOf([]dag.TagSet{tags}) })
		listed = append(listed, []any{pairOf(uint32(id)), found, tagNumbers(set), err == nil, setsOf([]dag.TagSet{tags})[0]})
		if p := pairOf(uint32(id)); p[0] > maxHi {
			maxHi = p[0]
		}
		if p := pairOf(uint32(id)); p[1] > maxLo {
			maxLo = p[1]
		}
	}
	rec["sets"], rec["size"] = listed, sets.Size()

	// tag set identifiers found around those listed and far from them
	found := make([][]int, 0)
	for hi := 0; hi <= maxHi+2; hi++ {
		for lo := 0; lo <= maxLo+2; lo++ {
			if _, ok := sets.Get(index.TagSetID(storage.Combine16(storage.ID16(hi), storage.ID16(lo)))); ok {
				found = append(found, []int{hi, lo})
			}
		}
	}
	for _, far := range []uint32{0xFFFF0000, 0x0000FFFF, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x00FF0000, 0x01000000} {
		if _, ok := sets.Get(index.TagSetID(far)); ok {
			found = append(found, pairOf(far))
		}
	}
	rec["found"] = found

	// tag identifiers a set may be made of
	good := make([]int, 0)
	for id := 0; id < 256; id++ {
		if _, err := idx.TagSet(index.TagSet{dag.TagID(id)}); err == nil {
			good = append(good, id)
		}
	}
	rec["good"] = good

	over := make([]int, 0)
	for _, k := range []int{1, 2, 3, 7, 1000, 1 << 20} {
		if _, err := idx.Get(dag.ID(idx.NodesCount() + k)); err == nil {
			over = append(over, k)
		}
	}
	rec["over"] = over

	// nodes
	nodes := make([][]any, 0)
	maxHi, maxLo = 0, 0
	var walk func(path []rune, children dag.NodeMap)
	walk = func(path []rune, children dag.NodeMap) {
		letters := make([]rune, 0, len(children))
		for letter := range children {
			letters = append(letters, letter)
		}
		sort.Slice(letters, func(i, j int) bool { return letters[i] < letters[j] })
		for _, letter := range letters {
			if len(path) > 300 || len(nodes) > maxWalk {
				panic("endless walk")
			}
			child := children[letter].(*index.Node)
			word := append(append([]rune{}, path...), letter)
			id := child.Item().Variants
			ids := make([][]int, 0)
			collection, err := idx.Variants(id)
			for _, x := range collection {
				ids = append(ids, pairOf(uint32(x)))
			}
			p := pairOf(uint32(id))
			if p[0] > maxHi {
				maxHi = p[0]
			}
			if p[1] > maxLo {
				maxLo = p[1]
			}
			nodes = append(nodes, []any{runesList(word), p, err == nil, ids})
			walk(word, idx.GetChildrenMap(child.Id()))
		}
	}
	walk(nil, idx.Children())
	rec["nodes"] = nodes

	// combinations found around those of nodes and far from them
	combos := make([][]any, 0)
	try := func(id uint32) {
		collection, err := idx.Variants(index.VariantID(id))
		if err != nil {
			return
		}
		ids := make([][]int, 0)
		for _, x := range collection {
			ids = append(ids, pairOf(uint32(x)))
		}
		combos = append(combos, []any{pairOf(id), ids})
	}
	for hi := 0; hi <= maxHi+2; hi++ {
		for lo := 0; lo <= maxLo+3; lo++ {
			try(uint32(hi)<<16 | uint32(lo))
		}
	}
	for _, far := range []uint32{0xFFFF0000, 0x0000FFFF, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x00FF0000, 0x01000000} {
		try(far)
	}
	rec["span"] = []int{maxHi + 2, maxLo + 3}
	rec["combos"], rec["res"] = combos, "ok"
}
