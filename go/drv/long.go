package main

import (
	"bytes"

	"github.com/amarin/binutils"
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
)

// longArea holds indexes of a few very long words: see spec/TraceLong.tla.
type longArea struct {
	idx   map[string]*index.Index
	files map[string][]byte
}

func init() { areas["long"] = func() area { return &longArea{} } }

func (a *longArea) reset(rec Rec) {
	a.idx, a.files = map[string]*index.Index{}, map[string][]byte{}
	rec["res"] = "ok"
}

// longWord has n letters; words of different stems have no beginning in common.
func longWord(stem, n int) []rune {
	w := make([]rune, n)
	for i := range w {
		w[i] = rune(0x430 + (i*7+stem)%32)
	}
	if n > 0 {
		w[0] = rune('a' + stem)
	}
	return w
}

func (a *longArea) do(rec Rec) {
	h := rec.str("h")
	idx := a.idx[h]
	rec["res"] = "ok"
	switch rec.str("op") {
	case "new":
		a.idx[h] = index.New()
		a.idx[h].TagID("NOUN", "")
	case "add":
		node, err := idx.AddRunes(longWord(rec.num("s", 0), rec.num("n", 0)))
		rec["res"], rec["id"] = result(err), -1
		if err == nil {
			rec["id"] = idOf(node)
		}
	case "tag":
		node, err := idx.FetchRunes(longWord(rec.num("s", 0), rec.num("n", 0)))
		if err == nil {
			err = node.AddTagSet("NOUN")
		}
		rec["res"] = result(err)
	case "probe":
		list := make([][]any, 0)
		for _, k := range rec.ints("at") {
			word := longWord(rec.num("s", 0), k)
			node, err := idx.FetchRunes(word)
			if err != nil {
				list = append(list, []any{k, false, -1, true, 0, -1})
				continue
			}
			same := true
			if rec.flag("text") {
				same = node.Word() == string(word)
			}
			again := -1
			if got, err := idx.Get(dag.ID(idOf(node))); err == nil {
				again = idOf(got)
			}
			list = append(list, []any{k, true, idOf(node), same, len(node.TagSets()), again})
		}
		rec["list"] = list
	case "count":
		rec["nc"], rec["wc"] = idx.NodesCount(), idx.WordsCount()
	case "opt":
		idx.Optimize()
	case "save":
		buffer := new(bytes.Buffer)
		err := idx.BinaryWriteTo(binutils.NewBinaryWriter(buffer))
		rec["res"] = result(err)
		if err == nil {
			a.files[rec.str("f")] = buffer.Bytes()
		}
	case "load":
		a.idx[h] = index.New()
		rec["res"] = result(a.idx[h].BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(a.files[rec.str("f")]))))
	}
}
