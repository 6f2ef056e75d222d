package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"unicode/utf8"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
)

const (
	maxLoggedBytes = 3000
	maxWalk        = 200000
)

type indexArea struct {
	handles map[string]*index.Index
	held    map[string]dag.Node
	files   map[string][]byte
}

func init() {
	areas["index"] = func() area {
		return &indexArea{handles: map[string]*index.Index{}, held: map[string]dag.Node{}, files: map[string][]byte{}}
	}
}

func (a *indexArea) reset(rec Rec) { rec["res"] = "ok" }

func (a *indexArea) handle(rec Rec, key string) *index.Index { return a.handles[rec.str(key)] }

// portions gives data in portions of chosen sizes, as any io.Reader may do.
type portions struct {
	data []byte
	mode string
	rnd  *rand.Rand
	idle bool
}

func (p *portions) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.data) == 0 {
		return 0, io.EOF
	}
	n := len(b)
	switch p.mode {
	case "one":
		n = 1
	case "two":
		n = 2
	case "three":
		n = 3
	case "rand":
		n = 1 + p.rnd.Intn(5)
	case "idle": // nothing at all every other time
		p.idle = !p.idle
		if p.idle {
			return 0, nil
		}
		n = 1 + p.rnd.Intn(3)
	}
	if n > len(b) {
		n = len(b)
	}
	if n > len(p.data) {
		n = len(p.data)
	}
	copy(b, p.data[:n])
	p.data = p.data[n:]
	if len(p.data) == 0 && p.mode == "dataerr" {
		return n, io.EOF
	}
	return n, nil
}

func newPortions(data []byte, mode string, seed int) *portions {
	return &portions{data: data, mode: mode, rnd: rand.New(rand.NewSource(int64(seed) + 1))}
}

// A word is passed as a string where there is one with these letters: code points that are no characters can
// be passed by themselves only.
func isText(w []rune) bool {
	for _, x := range w {
		if !utf8.ValidRune(x) {
			return false
		}
	}
	return true
}

func addWord(idx *index.Index, w []rune) (dag.Node, error) {
	if isText(w) {
		return idx.AddString(string(w))
	}
	return idx.AddRunes(w)
}

func fetchWord(idx *index.Index, w []rune) (dag.Node, error) {
	if isText(w) {
		return idx.FetchString(string(w))
	}
	return idx.FetchRunes(w)
}

func (a *indexArea) find(idx *index.Index, w []rune) (node *index.Node) {
	node, err := idx.FetchItemFromParent(0, w)
	if err != nil {
		return nil
	}
	return node
}

func idOf(node dag.Node) int {
	if n, ok := node.(*index.Node); ok && n != nil {
		return int(n.Id())
	}
	return -1
}

func setsOf(sets []dag.TagSet) [][][][]int {
	res := make([][][][]int, len(sets))
	for i, set := range sets {
		res[i] = make([][][]int, len(set))
		for j, tag := range set {
			res[i][j] = [][]int{bytesOf(string(tag.Name)), bytesOf(string(tag.Parent))}
		}
	}
	return res
}

func names(l [][]int) []dag.TagName {
	res := make([]dag.TagName, len(l))
	for i, n := range l {
		res[i] = dag.TagName(toBytes(n))
	}
	return res
}

func nodeObs(rec Rec, node dag.Node, err error) {
	rec["res"] = result(err)
	if err == nil {
		rec["id"] = idOf(node)
		rec["word"] = runesOf(node.Word())
	}
}

func lettersOf(m dag.NodeMap) [][]int {
	res := make([][]int, 0)
	for letter, node := range m {
		res = append(res, []int{int(letter), idOf(node)})
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

func (a *indexArea) do(rec Rec) {
	beginOp(rec)
	defer endOp(rec)
	a.perform(rec)
}

func (a *indexArea) perform(rec Rec) {
	op := rec.str("op")
	idx := a.handle(rec, "h")
	switch op {
	case "new":
		a.handles[rec.str("h")] = index.New()
		rec["res"] = "ok"
	case "tag":
		id := idx.TagID(dag.TagName(rec.bytes("n")), dag.TagName(rec.bytes("p")))
		rec["res"], rec["id"] = "ok", int(id)
	case "add":
		var node dag.Node
		var err error
		if rec.str("via") == "runes" {
			lend(rec.runes("w"), '!', func(w []rune) { node, err = idx.AddRunes(w) })
		} else if rec.has("raw") { // a text that may be no proper one
			node, err = idx.AddString(string(rec.bytes("raw")))
		} else {
			node, err = addWord(idx, rec.runes("w"))
		}
		nodeObs(rec, node, err)
		if err == nil {
			a.held[rec.str("h")+"/"+fmt.Sprint(rec.runes("w"))] = node
		}
	case "addto":
		var parent dag.ID
		if rec.has("over") { // a node that does not exist
			parent = dag.ID(idx.NodesCount() + rec.num("over", 1))
		} else if len(rec.ints("p")) > 0 {
			node := a.find(idx, rec.runes("p"))
			if node == nil {
				rec["res"] = "noparent"
				return
			}
			parent = node.Id()
		}
		var node dag.Node
		var err error
		lend(rec.runes("w"), '!', func(w []rune) { node, err = idx.AddToNode(parent, w) })
		nodeObs(rec, node, err)
	case "attach":
		var node dag.Node
		var err error
		switch rec.str("via") {
		case "add":
			node, err = addWord(idx, rec.runes("w"))
		case "held":
			node = a.held[rec.str("h")+"/"+fmt.Sprint(rec.runes("w"))]
			if node == nil {
				err = errors.New("not held")
			}
		case "id":
			if n := a.find(idx, rec.runes("w")); n != nil {
				node, err = idx.Get(n.Id())
			} else {
				err = errors.New("not found")
			}
		default:
			node, err = fetchWord(idx, rec.runes("w"))
		}
		if err != nil {
			rec["res"] = "nonode"
			return
		}
		lend(names(rec.lists("tags")), "!!!!", func(tags []dag.TagName) { rec["res"] = result(node.AddTagSet(tags...)) })
	case "addall":
		// many words at once: each added, then given its tag set (if any); the identifiers are recorded
		ids := make([]int, 0)
		sets, _ := rec["sets"].([]any)
		rec["res"] = "ok"
		for i, w := range rec.lists("ws") {
			node, err := idx.AddString(string(toRunes(w)))
			if err != nil {
				rec["res"] = "err"
				break
			}
			ids = append(ids, idOf(node))
			if len(sets) > 0 {
				list, _ := sets[i%len(sets)].([]any)
				conv := make([][]int, len(list))
				for j := range list {
					conv[j] = ints(list[j])
				}
				if err = node.AddTagSet(names(conv)...); err != nil {
					rec["res"] = "err"
					break
				}
			}
		}
		rec["ids"] = ids
	case "attachall":
		node, err := fetchWord(idx, rec.runes("w"))
		if err != nil {
			rec["res"] = "nonode"
			return
		}
		rec["res"] = "ok"
		sets, _ := rec["sets"].([]any)
		for _, x := range sets {
			list, _ := x.([]any)
			conv := make([][]int, len(list))
			for j := range list {
				conv[j] = ints(list[j])
			}
			if err = node.AddTagSet(names(conv)...); err != nil {
				rec["res"] = "err"
				break
			}
		}
	case "tagall":
		ids := make([]int, 0)
		for _, n := range rec.lists("ns") {
			ids = append(ids, int(idx.TagID(dag.TagName(toBytes(n)), dag.TagName(rec.bytes("p")))))
			rec["ids"] = ids
		}
		rec["res"] = "ok"
	case "fetch":
		var node dag.Node
		var err error
		w := rec.runes("w")
		switch rec.str("via") {
		case "runes":
			lend(w, '!', func(w []rune) { node, err = idx.FetchRunes(w) })
		case "item", "parent":
			split := rec.num("split", 0)
			var from dag.ID
			if split > 0 {
				p := a.find(idx, w[:split])
				if p == nil {
					rec["res"] = "err"
					return
				}
				from = p.Id()
			}
			if rec.str("via") == "item" {
				lend(w[split:], '!', func(w []rune) { node, err = idx.FetchFromItem(from, w) })
			} else {
				var n *index.Node
				lend(w[split:], '!', func(w []rune) { n, err = idx.FetchItemFromParent(from, w) })
				node = n
			}
		case "raw":
			node, err = idx.FetchString(string(rec.bytes("raw")))
		default:
			node, err = fetchWord(idx, w)
		}
		nodeObs(rec, node, err)
		if err == nil {
			sets := node.TagSets()
			rec["sets"] = setsOf(sets)
			received(sets)
			keep(func() any { return setsOf(sets) })
		}
	case "opt":
		idx.Optimize()
		rec["res"] = "ok"
	case "save":
		buffer := new(bytes.Buffer)
		err := idx.BinaryWriteTo(binutils.NewBinaryWriter(buffer))
		rec["res"] = result(err)
		if err == nil {
			a.files[rec.str("f")] = buffer.Bytes()
			rec["len"] = buffer.Len()
			rec["sum"] = sumOf(buffer.Bytes())
			if buffer.Len() <= maxLoggedBytes && !rec.flag("nobytes") {
				rec["bytes"] = bytesList(buffer.Bytes())
			}
		}
	case "resave": // only compare with the file stored
		buffer := new(bytes.Buffer)
		err := idx.BinaryWriteTo(binutils.NewBinaryWriter(buffer))
		rec["res"] = result(err)
		rec["same"] = err == nil && bytes.Equal(buffer.Bytes(), a.files[rec.str("f")])
		rec["len"] = buffer.Len()
	case "failsave": // a writer that fails after some bytes
		err := idx.BinaryWriteTo(binutils.NewBinaryWriter(&failingWriter{left: rec.num("after", 0)}))
		rec["res"] = result(err)
		buffer, quiet := new(bytes.Buffer), []int{} // and writers that fail anywhere, once or for good
		if idx.BinaryWriteTo(binutils.NewBinaryWriter(buffer)) == nil {
			for at := 0; at < buffer.Len(); at += 1 + buffer.Len()/150 {
				w := &failingWriter{left: at, once: at%2 == 0}
				if idx.BinaryWriteTo(binutils.NewBinaryWriter(w)) == nil {
					quiet = append(quiet, at)
				}
			}
		}
		rec["quiet"] = quiet
	case "load":
		if idx == nil {
			idx = index.New()
			a.handles[rec.str("h")] = idx
		}
		data, ok := a.files[rec.str("f")]
		if !ok {
			rec["res"] = "nofile"
			return
		}
		src := newPortions(data, rec.str("mode"), rec.num("seed", 0))
		rec["res"] = result(idx.BinaryReadFrom(binutils.NewBinaryReader(src)))
	case "loadbytes":
		if idx == nil {
			idx = index.New()
			a.handles[rec.str("h")] = idx
		}
		src := newPortions(rec.bytes("bytes"), rec.str("mode"), rec.num("seed", 0))
		rec["res"] = result(idx.BinaryReadFrom(binutils.NewBinaryReader(src)))
	case "cuts":
		a.cuts(rec)
	case "marks":
		a.marks(rec)
	case "sections":
		a.sections(rec)
	case "dump":
		a.dump(rec, idx, rec)
	case "cmp":
		d1, d2 := Rec{}, Rec{}
		a.dump(rec, idx, d1)
		a.dump(rec, a.handles[rec.str("g")], d2)
		rec["d1"], rec["d2"] = d1, d2
		rec["res"] = "ok"
	case "children": // of a word, or of the root
		m := idx.Children()
		if len(rec.ints("w")) > 0 {
			n := a.find(idx, rec.runes("w"))
			if n == nil {
				rec["res"] = "err"
				return
			}
			m = idx.GetChildrenMap(n.Id())
		}
		rec["res"], rec["letters"] = "ok", lettersOf(m)
		received(m)
		keep(func() any { return lettersOf(m) })
	case "kept": // answers given before, as they were and as they are
		keptNow(rec)
	case "chain":
		a.chain(rec, idx)
	case "bigdump":
		a.bigdump(rec, idx)
	default:
		rec["res"] = "unknown"
	}
}

// sumOf identifies the content of a file.
func sumOf(data []byte) string {
	sum := sha256.Sum256(data)

	return hex.EncodeToString(sum[:12])
}

type failingWriter struct {
	left int
	once bool // what follows is written
}

func (w *failingWriter) Write(b []byte) (int, error) {
	if w.left < len(b) {
		n := w.left
		if w.left = 0; w.once {
			w.left = 1 << 40
		}
		return n, errors.New("no space")
	}
	w.left -= len(b)
	return len(b), nil
}

// readClass reads an index and says whether it was accepted, refused, or brought the program down.
func readClass(data []byte, mode string) (class string) {
	defer func() {
		if recover() != nil {
			class = "panic"
		}
	}()
	idx := index.New()
	if err := idx.BinaryReadFrom(binutils.NewBinaryReader(newPortions(data, mode, len(data)))); err != nil {
		return "err"
	}
	return "ok"
}

func (a *indexArea) cuts(rec Rec) {
	data, ok := a.files[rec.str("f")]
	if !ok {
		rec["res"] = "nofile"
		return
	}
	accepted, panicked := []int{}, []int{}
	step := rec.num("step", 1)
	tried := 0
	for cut := 0; cut < len(data); cut++ {
		if step > 1 && cut%step != 0 && len(data)-cut > 40 {
			continue
		}
		tried++
		switch readClass(data[:cut], rec.str("mode")) {
		case "ok":
			accepted = append(accepted, cut)
		case "panic":
			panicked = append(panicked, cut)
		}
	}
	rec["res"], rec["accepted"], rec["panicked"], rec["tried"], rec["len"] = "ok", accepted, panicked, tried, len(data)
}

// marks changes bytes of what looks like section markers; the specification knows which of them are.
func (a *indexArea) marks(rec Rec) {
	data, ok := a.files[rec.str("f")]
	if !ok {
		rec["res"] = "nofile"
		return
	}
	tried, accepted, panicked := []int{}, [][]int{}, [][]int{}
	from := 0
	for _, mark := range []string{"TD\x00", "TI\x00", "CD\x00", "ID\x00"} {
		at := bytes.Index(data[from:], []byte(mark))
		if at < 0 {
			continue
		}
		at += from
		for k := 0; k < 3; k++ {
			tried = append(tried, at+k)
			for _, to := range []byte{data[at+k] ^ 0x20, data[at+k] + 1, data[at+k] - 1, 'T', 'C', 'D', 'I', 0, 255} {
				if to == data[at+k] {
					continue
				}
				changed := append([]byte{}, data...)
				changed[at+k] = to
				switch readClass(changed, rec.str("mode")) {
				case "ok":
					accepted = append(accepted, []int{at + k, int(to)})
				case "panic":
					panicked = append(panicked, []int{at + k, int(to)})
				}
			}
		}
		from = at + 3
	}
	rec["res"], rec["tried"], rec["accepted"], rec["panicked"] = "ok", tried, accepted, panicked
}

// sections reads files made of the sections of a saved one: one missing, one more, two exchanged, one that is only a
// label of another name. The specification knows where sections begin, and that of these files none is an index.
func (a *indexArea) sections(rec Rec) {
	data, ok := a.files[rec.str("f")]
	if !ok {
		rec["res"] = "nofile"
		return
	}
	at, from := []int{}, 0
	for _, mark := range []string{"TD\x00", "TI\x00", "CD\x00", "ID\x00"} {
		i := bytes.Index(data[from:], []byte(mark))
		if i < 0 {
			rec["res"] = "nosection"
			return
		}
		at = append(at, from+i)
		from += i + 3
	}
	part := func(i int) []byte {
		if i == 3 {
			return data[at[3]:]
		}
		return data[at[i]:at[i+1]]
	}
	label := func(l string) []byte { return append([]byte(l), 0) }
	accepted, panicked, tried := []any{}, []any{}, 0
	try := func(what string, parts ...[]byte) {
		file := bytes.Join(parts, nil)
		tried++
		switch readClass(file, rec.str("mode")) {
		case "ok":
			accepted = append(accepted, []any{what, bytesList(file)})
		case "panic":
			panicked = append(panicked, []any{what, bytesList(file)})
		}
	}
	whole := [][]byte{part(0), part(1), part(2), part(3)}
	with := func(i int, put ...[]byte) [][]byte {
		res := append([][]byte{}, whole[:i]...)
		res = append(res, put...)
		return append(res, whole[i+1:]...)
	}
	for i := 0; i < 4; i++ {
		try(fmt.Sprint("without section ", i), with(i)...)
		for _, l := range []string{"", "X", "XX", "TD", "TI", "CD", "ID", "td", "TDTD"} {
			name := string(whole[i][:2])
			if l != name {
				try(fmt.Sprint("only label ", l, " for section ", i), with(i, label(l))...)
				try(fmt.Sprint("label ", l, " for section ", i), with(i, label(l), whole[i][3:])...)
				if i < 3 {
					try(fmt.Sprint("label ", l, " before section ", i), with(i, label(l), whole[i])...)
				}
			}
		}
		if i < 3 {
			try(fmt.Sprint("section ", i, " twice"), with(i, whole[i], whole[i])...)
		}
		for k := i + 1; k < 4; k++ {
			x := append([][]byte{}, whole...)
			x[i], x[k] = x[k], x[i]
			try(fmt.Sprint("sections ", i, " and ", k, " exchanged"), x...)
		}
	}
	rec["res"], rec["at"], rec["tried"], rec["accepted"], rec["panicked"] = "ok", at, tried, accepted, panicked
}

// dump walks the whole index through every access path there is.
func (a *indexArea) dump(op Rec, idx *index.Index, rec Rec) {
	type entry = []any
	nodes := make([]entry, 0)
	walked := 0
	var walk func(id dag.ID, path []rune, children dag.NodeMap)
	walk = func(id dag.ID, path []rune, children dag.NodeMap) {
		received(children)
		letters := make([]rune, 0, len(children))
		for letter := range children {
			letters = append(letters, letter)
		}
		sort.Slice(letters, func(i, j int) bool { return letters[i] < letters[j] })
		for _, letter := range letters {
			if walked++; walked > maxWalk || len(path) > 300 {
				panic("endless walk")
			}
			child := children[letter].(*index.Node)
			word := append(append([]rune{}, path...), letter)
			fetched, fetchedByString, got, ids := -1, -1, []int{}, -1
			if n, err := idx.FetchItemFromParent(0, word); err == nil {
				fetched = int(n.Id())
			}
			if n, err := fetchWord(idx, word); err == nil {
				fetchedByString = idOf(n)
			}
			if n, err := idx.Get(child.Id()); err == nil {
				got = runesOf(n.Word())
			}
			if x, ok := idx.GetChildrenIDMap(id)[letter]; ok {
				ids = int(x)
			}
			item, sets := child.Item(), child.TagSets()
			received(sets)
			nodes = append(nodes, entry{
				runesList(word), int(child.Id()), runesOf(child.Word()), setsOf(sets),
				fetched, fetchedByString, got, ids, int(item.Parent), int(item.Letter), int(item.ID), int(id),
			})
			walk(child.Id(), word, idx.GetChildrenMap(child.Id()))
		}
	}
	walk(0, nil, idx.Children())
	rec["nodes"], rec["nc"], rec["wc"] = nodes, idx.NodesCount(), idx.WordsCount()
	tags := make([][][]int, 0)
	for _, t := range idx.Tags() {
		tags = append(tags, [][]int{bytesOf(string(t.Name)), bytesOf(string(t.Parent))})
	}
	rec["tags"] = tags
	over := make([]int, 0)
	for _, k := range []int{1, 2, 3, 1000, 1 << 20} {
		if _, err := idx.Get(dag.ID(idx.NodesCount() + k)); err == nil {
			over = append(over, k)
		}
	}
	rec["over"] = over
	rec["root"] = Rec{}
	if root, err := idx.Get(0); err == nil { // the root is a node like others, without text
		name := dag.TagName("none")
		if list := idx.Tags(); len(list) > 0 {
			name = list[0].Name
		}
		rec["root"] = Rec{"id": idOf(root), "w": runesOf(root.Word()), "sets": len(root.TagSets()), "attach": result(root.AddTagSet(name))}
	}
	probes := make([][]any, 0)
	for _, w := range op.lists("probe") {
		found := 0
		if _, err := fetchWord(idx, toRunes(w)); err == nil {
			found++
		}
		if _, err := idx.FetchRunes(toRunes(w)); err == nil {
			found += 2
		}
		if n, err := idx.FetchItemFromParent(0, toRunes(w)); err == nil && n != nil {
			found += 4
		}
		probes = append(probes, []any{w, found})
	}
	rec["probes"] = probes
	rec["res"] = "ok"
}

// bigdump looks every word of a large index up, compactly.
func (a *indexArea) bigdump(rec Rec, idx *index.Index) {
	ids, bad, sets := make([]int, 0), make([]int, 0), make([]int, 0)
	kinds, numbers := make([][][][][]int, 0), make(map[string]int) // the answers met, and which of them a word got
	for i, w := range rec.lists("ws") {
		word := string(toRunes(w))
		node, err := idx.FetchString(word)
		if err != nil {
			ids = append(ids, -1)
			sets = append(sets, -1)
			continue
		}
		ids = append(ids, idOf(node))
		if node.Word() != word {
			bad = append(bad, i)
		}
		if got, err := idx.Get(dag.ID(idOf(node))); err != nil || got.Word() != word {
			bad = append(bad, i)
		}
		got := node.TagSets()
		key := fmt.Sprintf("%q", got)
		if _, met := numbers[key]; !met {
			numbers[key] = len(kinds)
			kinds = append(kinds, setsOf(got))
		}
		sets = append(sets, numbers[key])
	}
	rec["ids"], rec["bad"], rec["sets"], rec["kinds"] = ids, bad, sets, kinds
	rec["nc"], rec["wc"] = idx.NodesCount(), idx.WordsCount()
	rec["res"] = "ok"
}
