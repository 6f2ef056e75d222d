package main

import (
	"bytes"
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/dag"
)

// part is a part of an index, or a set, which has a binary form of its own.
type part interface {
	write(w io.Writer, bw *binutils.BinaryWriter) error
	read(r io.Reader, br *binutils.BinaryReader) (any, error)
}

type binaryPart interface {
	BinaryWriteTo(*binutils.BinaryWriter) error
}

// objPart is written and read by BinaryWriteTo and BinaryReadFrom.
type objPart struct {
	v    binaryPart
	take func(*binutils.BinaryReader) (any, error)
}

func (p objPart) write(_ io.Writer, bw *binutils.BinaryWriter) error { return p.v.BinaryWriteTo(bw) }
func (p objPart) read(_ io.Reader, br *binutils.BinaryReader) (any, error) {
	return p.take(br)
}

// ioPart is written and read by WriteTo and ReadFrom.
type ioPart struct{ c codec }

func (p ioPart) write(w io.Writer, _ *binutils.BinaryWriter) error {
	_, err := p.c.write(w)
	return err
}
func (p ioPart) read(r io.Reader, _ *binutils.BinaryReader) (any, error) {
	v, _, err := p.c.read(r)
	return v, err
}

func lists(x any) []any { l, _ := x.([]any); return l }

func tagsetTable(x any) index.TagSetTable {
	t := index.TagSetTable{}
	for _, s := range lists(x) {
		t = append(t, tagset(lists(s)))
	}
	return t
}

func variantsTable(x any) index.VariantsTable {
	t := index.VariantsTable{}
	for _, s := range lists(x) {
		t = append(t, combo(lists(s)))
	}
	return t
}

func fromTagsetTable(t index.TagSetTable) []any {
	x := make([]any, 0)
	for _, s := range t {
		x = append(x, fromTagset(s))
	}
	return x
}

func fromVariantsTable(t index.VariantsTable) []any {
	x := make([]any, 0)
	for _, s := range t {
		x = append(x, fromCombo(s))
	}
	return x
}

func fromItem(i index.Item) []any {
	return []any{hilo(uint64(i.Parent)), hilo(uint64(i.ID)), hilo(uint64(uint32(i.Letter))), hilo(uint64(i.Variants))}
}

// newPart makes a part; reading goes into a value which was in use already.
func newPart(kind string, v any) part {
	x := lists(v)
	switch kind {
	case "s8", "s16", "ts":
		return ioPart{newCodec(Rec{"kind": kind, "v": v})}
	case "name":
		return objPart{dag.TagName(toBytes(ints(v))), func(r *binutils.BinaryReader) (any, error) {
			y := dag.TagName("USED")
			err := y.BinaryReadFrom(r)
			return bytesOf(string(y)), err
		}}
	case "tag":
		return objPart{tagList([]any{v})[0], func(r *binutils.BinaryReader) (any, error) {
			y := dag.Tag{Name: "USED", Parent: "ALSO"}
			err := y.BinaryReadFrom(r)
			return tagsOut([]dag.Tag{y})[0], err
		}}
	case "reg":
		return objPart{dag.NewIndex(tagList(v)...), func(r *binutils.BinaryReader) (any, error) {
			y := dag.NewIndex(dag.Tag{Name: "USED"}, dag.Tag{Name: "ALSO", Parent: "USED"})
			err := y.BinaryReadFrom(r)
			return tagsOut(y), err
		}}
	case "tso":
		return objPart{tagset(x), func(r *binutils.BinaryReader) (any, error) {
			y := index.TagSet{7, 7, 9}
			err := y.BinaryReadFrom(r)
			return fromTagset(y), err
		}}
	case "tst":
		return objPart{tagsetTable(v), func(r *binutils.BinaryReader) (any, error) {
			y := index.TagSetTable{{7, 9}, {1}, {2, 2, 2}}
			err := y.BinaryReadFrom(r)
			return fromTagsetTable(y), err
		}}
	case "tsi":
		w := index.TagSetIndex{}
		for _, t := range x {
			w = append(w, tagsetTable(t))
		}
		return objPart{w, func(r *binutils.BinaryReader) (any, error) {
			y := index.TagSetIndex{{{7}}, {{7, 9}, {1, 1}}, {}, {{1, 2, 3, 4}}}
			err := y.BinaryReadFrom(r)
			l := make([]any, 0)
			for _, t := range y {
				l = append(l, fromTagsetTable(t))
			}
			return l, err
		}}
	case "var":
		return objPart{combo(x), func(r *binutils.BinaryReader) (any, error) {
			y := index.TagSetIDCollection{7, 9, 65536}
			err := y.BinaryReadFrom(r)
			return fromCombo(y), err
		}}
	case "vt":
		return objPart{variantsTable(v), func(r *binutils.BinaryReader) (any, error) {
			y := index.VariantsTable{{7, 9}, {1}, {2, 2, 2}}
			err := y.BinaryReadFrom(r)
			return fromVariantsTable(y), err
		}}
	case "vi":
		w := index.VariantsIndex{}
		for _, t := range x {
			w = append(w, variantsTable(t))
		}
		return objPart{w, func(r *binutils.BinaryReader) (any, error) {
			y := index.VariantsIndex{{{7}}, {{7, 9}, {1, 1}}, {}, {{1, 2, 3, 4}}}
			err := y.BinaryReadFrom(r)
			l := make([]any, 0)
			for _, t := range y {
				l = append(l, fromVariantsTable(t))
			}
			return l, err
		}}
	case "item":
		w := &index.Item{Parent: dag.ID(pair(x[0])), ID: dag.ID(pair(x[1])), Letter: rune(pair(x[2])), Variants: index.VariantID(pair(x[3]))}
		return objPart{w, func(r *binutils.BinaryReader) (any, error) {
			y := index.Item{Parent: 7, ID: 9, Letter: 'x', Variants: 65536}
			err := y.BinaryReadFrom(r)
			return fromItem(y), err
		}}
	case "items":
		w := index.NewItems()
		for _, i := range x {
			f := lists(i)
			id := w.NewChild(dag.ID(pair(f[0])), rune(pair(f[1]))).ID
			w.Get(id).Variants = index.VariantID(pair(f[2]))
		}
		return objPart{*w, func(r *binutils.BinaryReader) (any, error) {
			y := index.NewItems()
			y.Get(y.NewChild(0, 'x').ID).Variants = 65537
			y.NewChild(1, 'y')
			err := y.BinaryReadFrom(r)
			l := make([]any, 0)
			if err != nil {
				return l, err
			}
			for id := dag.ID(1); id < y.NextID(); id++ {
				f := fromItem(*y.Get(id))
				if y.Get(id).ID != id {
					f = append(f, "another identifier")
				}
				l = append(l, []any{f[0], f[2], f[3]})
			}
			if y.Get(0) != nil || y.Get(y.NextID()) != nil {
				l = append(l, "more items than counted")
			}
			return l, err
		}}
	case "index":
		w := index.New()
		if err := w.BinaryReadFrom(binutils.NewBinaryReader(common.FullReader(bytes.NewReader(toBytes(ints(v)))))); err != nil {
			panic("sample index not read: " + err.Error())
		}
		return objPart{w, func(r *binutils.BinaryReader) (any, error) {
			y := index.New()
			if n, err := y.AddString("used"); err == nil {
				_ = n.AddTagSet("USED")
			}
			if err := y.BinaryReadFrom(r); err != nil {
				return nil, err
			}
			b := new(bytes.Buffer)
			err := y.BinaryWriteTo(binutils.NewBinaryWriter(b))
			return bytesList(b.Bytes()), err
		}}
	}
	return nil
}

type partsArea struct{}

func init() { areas["parts"] = func() area { return partsArea{} } }

func (partsArea) reset(rec Rec) { rec["res"] = "ok" }

// writeParts writes parts one after another; gives the number of the first one which reported an
// error and how many bytes there were after each.
func writeParts(ps []part, w io.Writer, size func() int, each bool) (failed int, ends []int) {
	at := 0
	defer func() {
		if p := recover(); p != nil {
			failed = -100 - at
		}
	}()
	ends = make([]int, 0)
	bw := binutils.NewBinaryWriter(w)
	for at = range ps {
		if each {
			bw = binutils.NewBinaryWriter(w)
		}
		if err := ps[at].write(w, bw); err != nil {
			return at, ends
		}
		if size != nil {
			ends = append(ends, size())
		}
	}
	return -1, ends
}

func readParts(ps []part, r io.Reader, each bool) (failed int, back []any) {
	at := 0
	defer func() {
		if p := recover(); p != nil {
			failed = -100 - at
		}
	}()
	back = make([]any, 0)
	br := binutils.NewBinaryReader(common.FullReader(r))
	for at = range ps {
		if each {
			br = binutils.NewBinaryReader(common.FullReader(r))
		}
		v, err := ps[at].read(r, br)
		if err != nil {
			return at, back
		}
		back = append(back, v)
	}
	return -1, back
}

func (partsArea) do(rec Rec) {
	if rec.str("op") != "stream" {
		rec["res"] = "unknown"
		return
	}
	ps := make([]part, 0)
	for _, x := range anys(rec, "parts") {
		f := lists(x)
		kind, _ := f[0].(string)
		ps = append(ps, newPart(kind, f[1]))
	}
	each, mode := rec.flag("each"), rec.str("mode")
	rec["res"] = "ok"
	b := new(bytes.Buffer)
	failed, ends := writeParts(ps, b, b.Len, each)
	rec["wfail"], rec["ends"] = failed, ends
	if failed != -1 {
		return
	}
	data := append([]byte{}, b.Bytes()...)
	rec["bytes"] = bytesList(data)
	src := newPortions(append(append([]byte{}, data...), rec.bytes("tail")...), mode, rec.num("seed", 0))
	failed, back := readParts(ps, src, each)
	rec["rfail"], rec["left"], rec["back"] = failed, len(src.data), back
	step := 1
	if len(data) > 500 {
		step = len(data)/250 + 1
	}
	if len(data) > 20000 {
		step = len(data)/20 + 1
	}
	cuts, wcuts := make([][]int, 0), make([][]int, 0)
	for cut := 0; cut < len(data); cut++ {
		near := false
		for _, e := range ends {
			near = near || (cut-e < 6 && e-cut < 3)
		}
		if cut%step != 0 && cut > 8 && !near {
			continue
		}
		for i, m := range []string{"all", mode, "dataerr"} {
			if i == 1 && m == "all" {
				continue
			}
			f, _ := readParts(ps, newPortions(data[:cut], m, cut), each)
			cuts = append(cuts, []int{cut, f})
		}
		f, _ := writeParts(ps, &brokenWriter{left: cut, whole: cut%2 == 0, once: cut%4 < 2}, nil, each)
		wcuts = append(wcuts, []int{cut, f})
	}
	rec["cuts"], rec["wcuts"] = cuts, wcuts
}
