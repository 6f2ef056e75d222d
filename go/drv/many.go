package main

import (
	"bytes"
	"sort"

	"github.com/amarin/binutils"
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
)

// manyArea holds indexes of very many words which follow a rule: see spec/Many.tla.
type manyArea struct {
	tags  map[string]*[]dag.Tag
	idx   map[string]*index.Index
	names [][]int
	shape Rec
	files map[string][]byte
}

func init() { areas["many"] = func() area { return &manyArea{} } }

func (a *manyArea) reset(rec Rec) {
	a.idx, a.files, a.names = map[string]*index.Index{}, map[string][]byte{}, rec.lists("tags")
	shape, _ := rec["shape"].(map[string]any)
	a.shape = Rec(shape)
	rec["res"] = "ok"
}

func (a *manyArea) word(i int) []rune {
	first, second := a.shape.num("b1", 0), a.shape.num("b2", 0)
	if w := a.shape.num("w", 0); w > 0 {
		return []rune{rune(first + i/w), rune(second + i%w)}
	}
	return []rune{rune(first + i)}
}

type rule struct {
	from, to, by, div int
	rests             map[int]bool
	sets              [][]int
}

func ruleOf(rec Rec) rule {
	r := rule{rec.num("from", 0), rec.num("to", 0), rec.num("by", 1), rec.num("div", 1), map[int]bool{}, rec.lists("sets")}
	if !rec.has("rests") {
		r.rests[0] = true
	}
	for _, x := range rec.ints("rests") {
		r.rests[x] = true
	}
	return r
}

func (r rule) chosen(i int) bool    { return r.rests[i%r.by] }
func (r rule) set(i int) []int      { return r.sets[i/r.div%len(r.sets)] }
func (a *manyArea) tag(n int) []int { return a.names[n] }

// forge makes a file of the documented layout which holds all words, with tag sets by the rules.
func (a *manyArea) forge(rules []rule) []byte {
	u8 := func(b []byte, n int) []byte { return append(b, byte(n)) }
	u16 := func(b []byte, n int) []byte { return append(b, byte(n>>8), byte(n)) }
	u32 := func(b []byte, n int) []byte { return append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n)) }
	total := a.shape.num("n", 0)
	b := u8([]byte{'T', 'D', 0}, len(a.names))
	for _, n := range a.names {
		b = append(append(b, "    "...), toBytes(n)...)
	}
	var sets, combos []table
	place := func(tables *[]table, size int, key string) int { // how far down the table of its size
		for len(*tables) <= size {
			*tables = append(*tables, table{at: map[string]int{}})
		}
		t := &(*tables)[size]
		at, there := t.at[key]
		if !there {
			at = len(t.list)
			t.at[key], t.list = at, append(t.list, key)
		}
		return at
	}
	variants := make([][2]int, total)
	for i := 0; i < total; i++ {
		var ids []string
		for _, r := range rules {
			if i < r.from || i >= r.to || !r.chosen(i) {
				continue
			}
			set := r.set(i)
			at := place(&sets, len(set)-1, string(toBytes(set)))
			id := string(u16(u16(nil, len(set)-1), at))
			known := false
			for _, x := range ids {
				known = known || x == id
			}
			if !known {
				ids = append(ids, id)
			}
		}
		if len(ids) == 0 {
			continue
		}
		sort.Strings(ids)
		key := ""
		for _, x := range ids {
			key += x
		}
		variants[i] = [2]int{len(ids), place(&combos, len(ids)-1, key)}
	}
	b = u32(append(b, 'T', 'I', 0), len(sets))
	for _, t := range sets {
		b = u16(b, len(t.list))
		for _, key := range t.list {
			b = append(u8(b, len(key)), key...)
		}
	}
	b = u8(append(b, 'C', 'D', 0), len(combos))
	for _, t := range combos {
		b = u32(b, len(t.list))
		for _, key := range t.list {
			b = append(u8(b, len(key)/4), key...)
		}
	}
	var items []byte
	count := 1
	add := func(parent int, letter rune, v [2]int) int {
		items = u16(u16(u32(u32(u32(items, parent), count), int(letter)), v[0]), v[1])
		count++
		return count - 1
	}
	above, parent := rune(-1), 0
	for i := 0; i < total; i++ {
		w := a.word(i)
		if len(w) == 2 && w[0] != above {
			above = w[0]
			parent = add(0, above, [2]int{})
		}
		add(parent, w[len(w)-1], variants[i])
	}
	b = u32(append(b, 'I', 'D', 0), count)
	return append(append(b, make([]byte, 16)...), items...)
}

type table struct {
	at   map[string]int
	list []string
}

func (a *manyArea) do(rec Rec) {
	h := rec.str("h")
	idx := a.idx[h]
	rec["res"] = "ok"
	switch rec.str("op") {
	case "new":
		a.idx[h] = index.New()
	case "tags":
		ids := make([]int, 0)
		for _, n := range a.names {
			ids = append(ids, int(idx.TagID(dag.TagName(toBytes(n)), "")))
		}
		rec["ids"] = ids
	case "words": // every word, in an order of its own
		n := a.shape.num("n", 0)
		ids := make([]int, n)
		for i := 0; i < n; i++ {
			at := (i*rec.num("mul", 1) + rec.num("add", 0)) % n
			node, err := idx.AddRunes(a.word(at))
			if err != nil {
				rec["res"] = "err"
				return
			}
			ids[at] = idOf(node)
		}
		rec["ids"] = ids
	case "give":
		a.give(rec, idx)
	case "opt":
		idx.Optimize()
	case "save":
		buffer := new(bytes.Buffer)
		err := idx.BinaryWriteTo(binutils.NewBinaryWriter(buffer))
		rec["res"] = result(err)
		if err == nil {
			a.files[rec.str("f")] = buffer.Bytes()
		}
		rec["len"] = buffer.Len()
	case "forge":
		list, _ := rec["rules"].([]any)
		var rules []rule
		for _, x := range list {
			m, _ := x.(map[string]any)
			rules = append(rules, ruleOf(Rec(m)))
		}
		a.files[rec.str("f")] = a.forge(rules)
	case "load":
		a.idx[h] = index.New()
		rec["res"] = result(a.idx[h].BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(a.files[rec.str("f")]))))
	case "look":
		a.look(rec, idx)
	case "trail":
		a.trail(rec, idx)
	default:
		rec["res"] = "unknown"
	}
}

// give gives words tag sets until it is refused.
func (a *manyArea) give(rec Rec, idx *index.Index) {
	r := ruleOf(rec)
	done := 0
	defer func() { rec["done"] = done }()
	for i := r.from; i < r.to; i++ {
		if !r.chosen(i) {
			continue
		}
		node, err := idx.FetchRunes(a.word(i))
		if err != nil {
			rec["res"] = "nonode"
			return
		}
		set := r.set(i)
		tags := make([]dag.TagName, len(set))
		for k, n := range set {
			tags[k] = dag.TagName(toBytes(a.tag(n)))
		}
		if err = node.AddTagSet(tags...); err != nil {
			rec["res"] = "err"
			return
		}
		done++
	}
}

// look tells of every word its identifier and its tag sets, by numbers of tags.
func (a *manyArea) look(rec Rec, idx *index.Index) {
	numbers := map[dag.Tag]int{}
	for i, n := range a.names {
		numbers[dag.Tag{Name: dag.TagName(toBytes(n)), Parent: "----"}] = i
	}
	n := a.shape.num("n", 0)
	ids, sets, bad := make([]int, n), make([][][]int, n), make([]int, 0)
	above, aboveSets := make([]int, 0), 0
	for i := 0; i < n; i++ {
		word := a.word(i)
		node, err := idx.FetchRunes(word)
		if err != nil {
			ids[i] = -1
			continue
		}
		ids[i] = idOf(node)
		got, err := idx.Get(dag.ID(ids[i]))
		if err != nil || got.Word() != string(word) || node.Word() != string(word) {
			bad = append(bad, i)
		}
		sets[i] = make([][]int, 0)
		for _, set := range node.TagSets() {
			list := make([]int, 0)
			for _, tag := range set {
				k, known := numbers[tag]
				if !known {
					k = -1
				}
				list = append(list, k)
			}
			sort.Ints(list)
			sets[i] = append(sets[i], list)
		}
		if w := a.shape.num("w", 0); w > 0 && i%w == 0 {
			node, err = idx.FetchRunes(word[:1])
			if err != nil {
				above = append(above, -1)
				continue
			}
			above = append(above, idOf(node))
			aboveSets += len(node.TagSets())
		}
	}
	absent := 0
	for i := n; i < n+50; i++ {
		for _, w := range [][]rune{a.word(i + 100000), append(a.word(i%(n+1)), 'x')} {
			if _, err := idx.FetchRunes(w); err == nil {
				absent++
			}
		}
	}
	rec["ids"], rec["sets"], rec["bad"], rec["above"], rec["aboveSets"], rec["absent"] = ids, sets, bad, above, aboveSets, absent
	rec["nc"], rec["wc"] = idx.NodesCount(), idx.WordsCount()
}

// trail follows identifiers: of the tag sets listed to tags, and of every word's combination to tag sets.
func (a *manyArea) trail(rec Rec, idx *index.Index) {
	numbers := map[dag.TagName]int{}
	for i, n := range a.names {
		numbers[dag.TagName(toBytes(n))] = i
	}
	sets := idx.TagSetIndex()
	behind := func(id index.TagSetID) []int {
		set, found := sets.Get(id)
		tags, err := idx.TagSet(set)
		if !found || err != nil {
			return []int{-1}
		}
		list := make([]int, 0)
		for _, tag := range tags {
			k, known := numbers[tag.Name]
			if !known {
				k = -1
			}
			list = append(list, k)
		}
		sort.Ints(list)
		return list
	}
	listed, means := make([]int, 0), make([][]int, 0)
	for _, id := range sets.TableIDs() {
		listed = append(listed, int(id))
		means = append(means, behind(id))
	}
	n := a.shape.num("n", 0)
	combos, lists := make([]int, n), make([][][]int, n)
	for i := 0; i < n; i++ {
		combos[i], lists[i] = -1, make([][]int, 0)
		node, err := idx.FetchItemFromParent(0, a.word(i))
		if err != nil {
			continue
		}
		id := node.Item().Variants
		collection, err := idx.Variants(id)
		if err != nil {
			continue
		}
		combos[i] = int(id)
		for _, x := range collection {
			lists[i] = append(lists[i], behind(x))
		}
	}
	rec["listed"], rec["means"], rec["combos"], rec["lists"], rec["size"] = listed, means, combos, lists, sets.Size()
}
