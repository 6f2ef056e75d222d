package main

import (
	"bytes"
	"errors"
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/storage"
)

// store hides the kind of a set store: elements are numbers or [hi, lo] pairs, as are identifiers.
type store interface {
	put(x []any) any
	find(x []any) (id any, found bool)
	get(id any) (x []any, found bool)
	prefill(n int)
}

func num(x any) int { f, _ := x.(float64); return int(f) }

func pair(x any) uint64 { return fromHilo(ints(x)) }

type st8 struct{ t storage.Table8 }
type st16 struct{ t storage.Table16 }
type sc8 struct{ t storage.Collection8x8 }
type sc16 struct{ t storage.Collection16 }
type sts struct{ t index.TagSetTable }
type stsi struct{ t index.TagSetIndex }
type svt struct{ t index.VariantsTable }
type svi struct{ t index.VariantsIndex }

func set8(x []any) storage.Set8 {
	s := make(storage.Set8, len(x))
	for i := range x {
		s[i] = storage.ID8(num(x[i]))
	}
	return s
}

func set16(x []any) storage.Set16 {
	s := make(storage.Set16, len(x))
	for i := range x {
		s[i] = storage.ID16(num(x[i]))
	}
	return s
}

func tagset(x []any) index.TagSet {
	s := make(index.TagSet, len(x))
	for i := range x {
		s[i] = dag.TagID(num(x[i]))
	}
	return s
}

func combo(x []any) index.TagSetIDCollection {
	s := make(index.TagSetIDCollection, len(x))
	for i := range x {
		s[i] = index.TagSetID(pair(x[i]))
	}
	return s
}

func from8(s storage.Set8) []any {
	x := make([]any, len(s))
	for i := range s {
		x[i] = int(s[i])
	}
	return x
}

func from16(s storage.Set16) []any {
	x := make([]any, len(s))
	for i := range s {
		x[i] = int(s[i])
	}
	return x
}

func fromTagset(s index.TagSet) []any {
	x := make([]any, len(s))
	for i := range s {
		x[i] = int(s[i])
	}
	return x
}

func fromCombo(s index.TagSetIDCollection) []any {
	x := make([]any, len(s))
	for i := range s {
		x[i] = hilo(uint64(s[i]))
	}
	return x
}

func (s *st8) put(x []any) (id any) {
	lend(set8(x), 255, func(y []storage.ID8) { id = int(s.t.Index(y)) })
	return id
}
func (s *st8) find(x []any) (res any, ok bool) {
	lend(set8(x), 255, func(y []storage.ID8) {
		id, found := s.t.Find(y)
		res, ok = int(id), found
	})
	return res, ok
}
func (s *st8) get(id any) ([]any, bool) {
	x, ok := s.t.Get(storage.ID8(num(id)))
	keep(func() any { return from8(x) })
	return from8(x), ok
}
func (s *st16) put(x []any) (id any) {
	lend(set16(x), 255, func(y []storage.ID16) { id = int(s.t.Index(y)) })
	return id
}
func (s *st16) find(x []any) (res any, ok bool) {
	lend(set16(x), 255, func(y []storage.ID16) {
		id, found := s.t.Find(y)
		res, ok = int(id), found
	})
	return res, ok
}
func (s *st16) get(id any) ([]any, bool) {
	x, ok := s.t.Get(storage.ID16(num(id)))
	keep(func() any { return from16(x) })
	return from16(x), ok
}
func (s *sc8) put(x []any) (id any) {
	lend(set8(x), 255, func(y []storage.ID8) { id = int(s.t.Index(y)) })
	return id
}
func (s *sc8) find(x []any) (res any, ok bool) {
	lend(set8(x), 255, func(y []storage.ID8) {
		id, found := s.t.Find(y)
		res, ok = int(id), found
	})
	return res, ok
}
func (s *sc8) get(id any) ([]any, bool) {
	x, ok := s.t.Get(storage.ID16(num(id)))
	keep(func() any { return from8(x) })
	return from8(x), ok
}
func (s *sc16) put(x []any) (id any) {
	lend(set16(x), 255, func(y []storage.ID16) { id = hilo(uint64(s.t.Index(y))) })
	return id
}
func (s *sc16) find(x []any) (res any, ok bool) {
	lend(set16(x), 255, func(y []storage.ID16) {
		id, found := s.t.Find(y)
		res, ok = hilo(uint64(id)), found
	})
	return res, ok
}
func (s *sc16) get(id any) ([]any, bool) {
	x, ok := s.t.Get(storage.ID32(pair(id)))
	keep(func() any { return from16(x) })
	return from16(x), ok
}
func (s *sts) put(x []any) (id any) {
	lend(tagset(x), 255, func(y []dag.TagID) { id = int(s.t.Index(y)) })
	return id
}
func (s *sts) find(x []any) (res any, ok bool) {
	lend(tagset(x), 255, func(y []dag.TagID) {
		id, found := s.t.Find(y)
		res, ok = int(id), found
	})
	return res, ok
}
func (s *sts) get(id any) ([]any, bool) {
	x, ok := s.t.Get(index.TagSetSubID(num(id)))
	keep(func() any { return fromTagset(x) })
	return fromTagset(x), ok
}
func (s *stsi) put(x []any) (id any) {
	lend(tagset(x), 255, func(y []dag.TagID) { id = hilo(uint64(s.t.Index(y))) })
	return id
}
func (s *stsi) find(x []any) (res any, ok bool) {
	lend(tagset(x), 255, func(y []dag.TagID) {
		id, found := s.t.Find(y)
		res, ok = hilo(uint64(id)), found
	})
	return res, ok
}
func (s *stsi) get(id any) ([]any, bool) {
	x, ok := s.t.Get(index.TagSetID(pair(id)))
	keep(func() any { return fromTagset(x) })
	return fromTagset(x), ok
}
func (s *svt) put(x []any) (id any) {
	lend(combo(x), 255, func(y []index.TagSetID) { id = int(s.t.Index(y)) })
	return id
}
func (s *svt) find(x []any) (res any, ok bool) {
	lend(combo(x), 255, func(y []index.TagSetID) {
		id, found := s.t.Find(y)
		res, ok = int(id), found
	})
	return res, ok
}
func (s *svt) get(id any) ([]any, bool) {
	x := s.t.Get(index.VariantSubID(num(id)))
	keep(func() any { return fromCombo(x) })
	return fromCombo(x), len(x) > 0
}
func (s *svi) put(x []any) (id any) {
	lend(combo(x), 255, func(y []index.TagSetID) { id = hilo(uint64(s.t.Index(y))) })
	return id
}
func (s *svi) find(x []any) (res any, ok bool) {
	lend(combo(x), 255, func(y []index.TagSetID) {
		id, found := s.t.Find(y)
		res, ok = hilo(uint64(id)), found
	})
	return res, ok
}
func (s *svi) get(id any) ([]any, bool) {
	x := s.t.Get(index.VariantID(pair(id)))
	keep(func() any { return fromCombo(x) })
	return fromCombo(x), len(x) > 0
}

// prefill stores n different sets which no scenario uses: [0, i] for 16-bit elements, and increasing
// triples below 254 for 8-bit ones.
func triples(n int, f func(a, b, c int)) {
	for a := 0; a < 254; a++ {
		for b := a; b < 254; b++ {
			for c := b; c < 254; c++ {
				if n == 0 {
					return
				}
				n--
				f(a, b, c)
			}
		}
	}
}

func (s *st8) prefill(n int) {
	triples(n, func(a, b, c int) { s.t = append(s.t, storage.Set8{storage.ID8(a), storage.ID8(b), storage.ID8(c)}) })
}

func (s *st16) prefill(n int) {
	triples(n, func(a, b, c int) { s.t = append(s.t, storage.Set16{storage.ID16(a), storage.ID16(b), storage.ID16(c)}) })
}

func (s *sc8) prefill(n int) {
	t := &st8{}
	t.prefill(n)
	s.t = storage.Collection8x8{storage.Table8{}, storage.Table8{}, t.t}
}

func (s *sc16) prefill(n int) {
	t := &st16{}
	t.prefill(n)
	s.t = storage.Collection16{storage.Table16{}, storage.Table16{}, t.t}
}

func (s *sts) prefill(n int) {
	triples(n, func(a, b, c int) { s.t = append(s.t, index.TagSet{dag.TagID(a), dag.TagID(b), dag.TagID(c)}) })
}

func (s *stsi) prefill(n int) {
	t := &sts{}
	t.prefill(n)
	s.t = index.TagSetIndex{index.TagSetTable{}, index.TagSetTable{}, t.t}
}

func (s *svt) prefill(n int) {
	triples(n, func(a, b, c int) {
		s.t = append(s.t, index.TagSetIDCollection{index.TagSetID(a), index.TagSetID(b), index.TagSetID(c)})
	})
}

func (s *svi) prefill(n int) {
	t := &svt{}
	t.prefill(n)
	s.t = index.VariantsIndex{index.VariantsTable{}, index.VariantsTable{}, t.t}
}

func newStore(kind string) store {
	switch kind {
	case "t8":
		return &st8{}
	case "t16":
		return &st16{}
	case "c8":
		return &sc8{}
	case "c16":
		return &sc16{}
	case "ts":
		return &sts{}
	case "tsi":
		return &stsi{}
	case "vt":
		return &svt{}
	}
	return &svi{}
}

type storesArea struct {
	stores map[string]store
	regs   map[string]*dag.Idx
}

func init() {
	areas["stores"] = func() area { return &storesArea{stores: map[string]store{}, regs: map[string]*dag.Idx{}} }
}

func (a *storesArea) reset(rec Rec) { rec["res"] = "ok" }

func anys(rec Rec, key string) []any { l, _ := rec[key].([]any); return l }

func tagList(v any) []dag.Tag {
	list, _ := v.([]any)
	tags := make([]dag.Tag, len(list))
	for i, x := range list {
		t, _ := x.([]any)
		tags[i] = dag.Tag{Name: dag.TagName(toBytes(ints(t[0]))), Parent: dag.TagName(toBytes(ints(t[1])))}
	}
	return tags
}

func tagsOut(tags []dag.Tag) [][][]int {
	res := make([][][]int, len(tags))
	for i, t := range tags {
		res[i] = [][]int{bytesOf(string(t.Name)), bytesOf(string(t.Parent))}
	}
	return res
}

// roundAny brings elements into the form they have in a record that was read.
func roundAny(x []any) []any {
	y := make([]any, len(x))
	for i, e := range x {
		switch v := e.(type) {
		case int:
			y[i] = float64(v)
		case []int:
			l := make([]any, len(v))
			for j, n := range v {
				l[j] = float64(n)
			}
			y[i] = l
		default:
			y[i] = e
		}
	}
	return y
}

func (a *storesArea) do(rec Rec) {
	beginOp(rec)
	defer endOp(rec)
	s := a.stores[rec.str("s")]
	reg := a.regs[rec.str("s")]
	rec["res"] = "ok"
	switch rec.str("op") {
	case "mk":
		a.stores[rec.str("s")] = newStore(rec.str("kind"))
	case "prefill":
		s.prefill(rec.num("n", 0))
	case "put":
		rec["id"] = s.put(anys(rec, "x"))
	case "find":
		rec["id"], rec["found"] = s.find(anys(rec, "x"))
	case "get":
		rec["x"], rec["found"] = s.get(rec["id"])
	case "gets":
		out := make([][]any, 0)
		for _, id := range anys(rec, "ids") {
			x, found := s.get(id)
			n := 0
			if found {
				n = 1
			}
			out = append(out, []any{id, n, x})
		}
		rec["out"] = out
	case "again":
		// what an identifier holds, found and put again, in another order
		out := make([][]any, 0)
		for _, id := range anys(rec, "ids") {
			x, found := s.get(id)
			if !found {
				out = append(out, []any{id, 0, x, id, 0, id})
				continue
			}
			x = roundAny(x)
			at, n := s.find(x)
			known := 0
			if n {
				known = 1
			}
			y := append([]any{}, x...)
			for i, j := 0, len(y)-1; i < j; i, j = i+1, j-1 {
				y[i], y[j] = y[j], y[i]
			}
			out = append(out, []any{id, 1, x, s.put(y), known, at})
		}
		rec["out"] = out
	case "putall":
		out := make([]any, 0)
		for _, x := range anys(rec, "xs") {
			l, _ := x.([]any)
			out = append(out, s.put(l))
		}
		rec["out"] = out

	case "kept": // answers given before, as they were and as they are
		keptNow(rec)

	case "rmk":
		lend(tagList(rec["tags"]), dag.Tag{Name: "!!!!", Parent: "????"}, func(tags []dag.Tag) {
			r := dag.NewIndex(tags...)
			a.regs[rec.str("s")] = &r
		})
	case "rput":
		rec["id"] = int(reg.Index(dag.TagName(rec.bytes("n")), dag.TagName(rec.bytes("p"))))
	case "rfind":
		id, found := reg.Find(dag.TagName(rec.bytes("n")))
		rec["id"], rec["found"] = int(id), found
	case "rget":
		t, found := reg.Get(dag.TagID(rec.num("id", 0)))
		rec["found"] = found
		if found {
			rec["tag"] = [][]int{bytesOf(string(t.Name)), bytesOf(string(t.Parent))}
		}
	case "rdump":
		got := make([][]any, 0)
		for i := 0; i < 256; i++ {
			if t, ok := reg.Get(dag.TagID(i)); ok {
				got = append(got, []any{i, bytesOf(string(t.Name)), bytesOf(string(t.Parent))})
			}
		}
		rec["got"], rec["len"] = got, reg.Len()

	case "rt":
		a.roundTrip(rec)
	case "unmarshal":
		var n dag.TagName
		if err := n.UnmarshalBinary(rec.bytes("bytes")); err != nil {
			rec["res"] = "err"
		} else {
			rec["v"] = bytesOf(string(n))
		}
	case "marshal":
		b, err := dag.TagName(rec.bytes("v")).MarshalBinary()
		rec["res"] = result(err)
		if err == nil {
			rec["bytes"] = bytesList(b)
		}

	case "pack8":
		out := make([][]int, 0)
		for b := 0; b < 256; b++ {
			c := storage.Combine8(storage.ID8(rec.num("a", 0)), storage.ID8(b))
			out = append(out, []int{b, int(c), int(c.Upper()), int(c.Lower()), int(c.Upper().Uint8()), int(c.Lower().Uint8())})
		}
		rec["out"] = out
	case "unpack16":
		out := make([][]int, 0)
		for x := rec.num("from", 0); x < rec.num("to", 0); x++ {
			v := storage.ID16(x)
			out = append(out, []int{x, int(v.Upper()), int(v.Lower()), int(storage.Combine8(v.Upper(), v.Lower()))})
		}
		rec["out"] = out
	case "pack32":
		out := make([]any, 0)
		for _, p := range rec.lists("pairs") {
			hi, lo := p[0], p[1]
			switch rec.str("kind") {
			case "id32":
				c := storage.Combine16(storage.ID16(hi), storage.ID16(lo))
				out = append(out, []any{p, hilo(uint64(c.Uint32())), int(c.Upper16()), int(c.Lower16())})
			case "tagset":
				c := index.TagSetTableNumber(hi).TagSetID(index.TagSetSubID(lo))
				out = append(out, []any{p, hilo(uint64(c)), c.TagSetTableNumber().Int(), c.TagSetSubID().Int()})
			case "variant":
				c := index.CollectionTableNumber(hi).VariantID(index.VariantSubID(lo))
				out = append(out, []any{p, hilo(uint64(c)), int(c.TableNum().ID16()), int(c.CollectionTableID().ID16())})
			}
		}
		rec["out"] = out
	case "unpack32":
		out := make([]any, 0)
		for _, p := range rec.lists("xs") {
			x := fromHilo(p)
			switch rec.str("kind") {
			case "id32":
				v := storage.ID32(x)
				out = append(out, []any{p, int(v.Upper16()), int(v.Lower16()), hilo(uint64(storage.Combine16(v.Upper16(), v.Lower16())))})
			case "tagset":
				v := index.TagSetID(x)
				out = append(out, []any{p, v.TagSetTableNumber().Int(), v.TagSetSubID().Int(), hilo(uint64(v.TagSetTableNumber().TagSetID(v.TagSetSubID())))})
			case "variant":
				v := index.VariantID(x)
				out = append(out, []any{p, int(v.TableNum()), int(v.CollectionTableID()), hilo(uint64(v.TableNum().VariantID(v.CollectionTableID())))})
			}
		}
		rec["out"] = out
	default:
		rec["res"] = "unknown"
	}
}

// codec is anything with a binary form.
type codec interface {
	write(w io.Writer) (n int, err error)
	read(r io.Reader) (v any, n int, err error)
}

type codecSet8 struct{ v storage.Set8 }
type codecSet16 struct{ v storage.Set16 }
type codecTagSet struct {
	v   index.TagSet
	obj bool // by BinaryWriteTo and BinaryReadFrom
}
type codecReg struct{ v dag.Idx }
type codecTag struct{ v dag.Tag }
type codecName struct{ v dag.TagName }

func (c *codecSet8) write(w io.Writer) (int, error) { n, err := c.v.WriteTo(w); return int(n), err }
func (c *codecSet8) read(r io.Reader) (any, int, error) {
	v := storage.Set8{1, 2, 3}
	n, err := v.ReadFrom(r)
	return from8(v), int(n), err
}
func (c *codecSet16) write(w io.Writer) (int, error) { n, err := c.v.WriteTo(w); return int(n), err }
func (c *codecSet16) read(r io.Reader) (any, int, error) {
	v := storage.Set16{1, 2, 3}
	n, err := v.ReadFrom(r)
	return from16(v), int(n), err
}
func (c *codecTagSet) write(w io.Writer) (int, error) {
	if c.obj {
		return -1, c.v.BinaryWriteTo(binutils.NewBinaryWriter(w))
	}
	n, err := c.v.WriteTo(w)
	return int(n), err
}
func (c *codecTagSet) read(r io.Reader) (any, int, error) {
	v := index.TagSet{1, 2, 3}
	if c.obj {
		err := v.BinaryReadFrom(binutils.NewBinaryReader(common.FullReader(r)))
		return fromTagset(v), -1, err
	}
	n, err := v.ReadFrom(r)
	return fromTagset(v), int(n), err
}
func (c *codecReg) write(w io.Writer) (int, error) {
	return -1, c.v.BinaryWriteTo(binutils.NewBinaryWriter(w))
}
func (c *codecReg) read(r io.Reader) (any, int, error) {
	v := dag.NewIndex(dag.Tag{Name: "XXXX", Parent: "YYYY"})
	err := v.BinaryReadFrom(binutils.NewBinaryReader(r))
	return tagsOut(v), -1, err
}
func (c *codecTag) write(w io.Writer) (int, error) {
	return -1, c.v.BinaryWriteTo(binutils.NewBinaryWriter(w))
}
func (c *codecTag) read(r io.Reader) (any, int, error) {
	var v dag.Tag
	err := v.BinaryReadFrom(binutils.NewBinaryReader(r))
	return tagsOut([]dag.Tag{v}), -1, err
}
func (c *codecName) write(w io.Writer) (int, error) {
	return -1, c.v.BinaryWriteTo(binutils.NewBinaryWriter(w))
}
func (c *codecName) read(r io.Reader) (any, int, error) {
	var v dag.TagName
	err := v.BinaryReadFrom(binutils.NewBinaryReader(r))
	return bytesOf(string(v)), -1, err
}

func newCodec(rec Rec) codec {
	x := anys(rec, "v")
	switch rec.str("kind") {
	case "s8":
		return &codecSet8{set8(x)}
	case "s16":
		return &codecSet16{set16(x)}
	case "ts":
		return &codecTagSet{tagset(x), false}
	case "tso":
		return &codecTagSet{tagset(x), true}
	case "reg":
		r := dag.NewIndex()
		for _, t := range tagList(rec["v"]) {
			r.Index(t.Name, t.Parent)
		}
		return &codecReg{r}
	case "regraw":
		return &codecReg{dag.NewIndex(tagList(rec["v"])...)}
	case "tag":
		return &codecTag{tagList(rec["v"])[0]}
	}
	return &codecName{dag.TagName(rec.bytes("v"))}
}

type brokenWriter struct {
	left  int
	whole bool // fails on a write that does not fit without taking a part of it
	once  bool // what follows is written
}

func (w *brokenWriter) Write(b []byte) (int, error) {
	if len(b) <= w.left {
		w.left -= len(b)
		return len(b), nil
	}
	n := w.left
	if w.whole {
		n = 0
	}
	if w.left = 0; w.once {
		w.left = 1 << 40
	}
	return n, errors.New("no space")
}

// roundTrip writes a value, reads it back from a stream with more data behind it, tries every
// truncation of it, and every writer that fails.
func (a *storesArea) roundTrip(rec Rec) {
	c := newCodec(rec)
	buffer := new(bytes.Buffer)
	n, err := c.write(buffer)
	rec["res"] = result(err)
	if err != nil {
		return
	}
	data := append([]byte{}, buffer.Bytes()...)
	rec["n"], rec["len"] = n, len(data)
	tail := rec.bytes("tail")
	src := newPortions(append(append([]byte{}, data...), tail...), rec.str("mode"), rec.num("seed", 0))
	v, m, err := c.read(src)
	rec["rres"], rec["rn"], rec["left"] = result(err), m, len(src.data)
	if err == nil {
		rec["back"] = v
	}
	step := 1
	if len(data) > 600 {
		step = len(data) / 300
	}
	accepted, panicked, unnoticed := []int{}, []int{}, []int{}
	for cut := 0; cut < len(data); cut++ {
		if cut%step != 0 && cut > 8 && len(data)-cut > 8 {
			continue
		}
		for _, mode := range []string{"all", rec.str("mode"), "dataerr"} {
			switch a.readClass(c, data[:cut], mode) {
			case "ok":
				accepted = append(accepted, cut)
			case "panic":
				panicked = append(panicked, cut)
			}
		}
		if _, err := c.write(&brokenWriter{left: cut, whole: cut%2 == 0, once: cut%4 < 2}); err == nil {
			unnoticed = append(unnoticed, cut)
		}
	}
	rec["accepted"], rec["panicked"], rec["unnoticed"] = accepted, panicked, unnoticed
}

func (a *storesArea) readClass(c codec, data []byte, mode string) (class string) {
	defer func() {
		if recover() != nil {
			class = "panic"
		}
	}()
	if _, _, err := c.read(newPortions(data, mode, len(data))); err != nil {
		return "err"
	}
	return "ok"
}
