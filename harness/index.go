package main

import (
	"fmt"
	"iter"
	"time"

	"github.com/dball/destructive/internal/index"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// Histories of the indexes: sets of datums, their clones, and what they answer.

var indexKinds = []string{"EAV", "AEV", "AVE", "VAE"}

var indexTypes = map[string]index.IndexType{
	"EAV": index.EAVIndex, "AEV": index.AEVIndex, "AVE": index.AVEIndex, "VAE": index.VAEIndex,
}

var partials = map[string][]string{"EAV": {"EA", "E", "all", "all"}, "AEV": {"AE", "A"}, "AVE": {"A", "AV"}}

var partialOf = map[string]index.PartialIndex{"EA": index.EA, "E": index.E, "AE": index.AE, "A": index.A, "AV": index.AV}

var scalarTypes = []ID{sys.AttrTypeString, sys.AttrTypeInt, sys.AttrTypeRef, sys.AttrTypeFloat, sys.AttrTypeBool, sys.AttrTypeInst}

const firstIndexAttr = 101

type handle struct {
	n     int
	kind  string
	idx   index.Index
	attrs int // how many of the attributes it knows
}

type indexWorld struct {
	r       rng
	h       *history
	w       *world
	handles []*handle
	next    int
	degree  int
	maxE    int
	types   []ID
	given   []Datum // datums given to some index
	t       ID
}

func (x *indexWorld) attrTypes(n int) map[ID]ID {
	m := map[ID]ID{}
	for i := range n {
		m[ID(firstIndexAttr+i)] = x.types[i]
	}
	return m
}

func (x *indexWorld) value(typ ID) Value {
	if typ == sys.AttrTypeRef {
		return ID(1 + x.r.IntN(40))
	}
	return x.w.val(typ).(Value)
}

// datum makes up a datum that the index can hold.
func (x *indexWorld) datum(h *handle) (d Datum) {
	x.t++
	a := x.r.IntN(h.attrs)
	d = Datum{E: ID(1 + x.r.IntN(x.maxE)), A: ID(firstIndexAttr + a), T: 1000 + x.t}
	d.V = x.value(x.types[a])
	return
}

func (x *indexWorld) known(h *handle, d Datum) bool { return int(d.A)-firstIndexAttr < h.attrs }

// some returns datums, of which the given share has been seen before.
func (x *indexWorld) some(h *handle, n int, seen int) (ds []Datum) {
	for range n {
		if len(x.given) > 0 && x.r.chance(seen) {
			d := pick(x.r, x.given)
			if x.known(h, d) {
				x.t++
				d.T = 1000 + x.t
				if inst, ok := d.V.(Inst); ok {
					d.V = Inst(time.UnixMilli(time.Time(inst).UnixMilli()).UTC())
				}
				d.V = x.w.vary(d.V.(VRef)).(Value)
				ds = append(ds, d)
				continue
			}
		}
		ds = append(ds, x.datum(h))
	}
	return
}

func rawDatumJ(d Datum) J {
	var v J = []J{"nil", 0}
	if d.V != nil {
		v = rawJ(d.V)
	}
	return []J{idJ(d.E), idJ(d.A), v, idJ(d.T)}
}

func rawDatumsJ(ds []Datum) J {
	js := make([]J, len(ds))
	for i, d := range ds {
		js[i] = rawDatumJ(d)
	}
	return js
}

func (x *indexWorld) batch(k string, h *handle, ds []Datum) {
	was := make([]J, 0, len(ds))
	msg := x.h.guard(func() {
		for _, d := range ds {
			var extant bool
			switch k {
			case "ins":
				extant = h.idx.Insert(d)
			case "del":
				extant = h.idx.Delete(d)
			default:
				extant = h.idx.Find(d)
			}
			was = append(was, extant)
		}
	})
	x.h.add(ev{"k": k, "s": h.n, "ds": rawDatumsJ(ds), "was": was, "panic": msg})
	if k == "ins" {
		x.given = append(x.given, ds...)
		if len(x.given) > 400 {
			x.given = x.given[len(x.given)-400:]
		}
	}
}

func (x *indexWorld) open() *handle {
	x.next++
	h := &handle{n: x.next, kind: pick(x.r, indexKinds[:3]), attrs: 1 + x.r.IntN(len(x.types))}
	if x.r.chance(5) {
		h.kind = "VAE"
	}
	h.idx = index.NewCompositeIndex(x.degree, indexTypes[h.kind], x.attrTypes(h.attrs))
	x.h.add(ev{"k": "new", "s": h.n, "kind": h.kind, "panic": ""})
	x.handles = append(x.handles, h)
	return h
}

func (x *indexWorld) clone(of *handle) *handle {
	x.next++
	h := &handle{n: x.next, kind: of.kind, attrs: of.attrs}
	msg := x.h.guard(func() { h.idx = of.idx.Clone() })
	if h.idx == nil {
		h.idx = of.idx
	}
	x.h.add(ev{"k": "clone", "s": h.n, "of": of.n, "panic": msg})
	x.handles = append(x.handles, h)
	return h
}

func (x *indexWorld) drop(i int) {
	h := x.handles[i]
	x.handles = append(x.handles[:i:i], x.handles[i+1:]...)
	x.h.add(ev{"k": "drop", "s": h.n, "panic": ""})
}

// sequence is what an index answers for a partial key.
func (x *indexWorld) sequence(h *handle, p string, q Datum) iter.Seq[Datum] {
	if p == "all" {
		return h.idx.All()
	}
	return h.idx.Select(partialOf[p], q)
}

// query makes up a partial key. The parts that do not belong to it may be anything.
func (x *indexWorld) query(h *handle) (p string, q Datum) {
	p = pick(x.r, partials[h.kind])
	q = x.some(h, 1, 80)[0]
	if x.r.chance(60) {
		switch p {
		case "E":
			q = Datum{E: q.E}
		case "EA", "AE":
			q = Datum{E: q.E, A: q.A}
		case "A":
			q = Datum{A: q.A}
		case "AV":
			q = Datum{A: q.A, V: q.V}
		case "all":
			q = Datum{}
		}
	}
	return
}

func sameSeq(a, b []J) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// ask reads a sequence to its end, perhaps while another index is being changed, and once more in parts.
func (x *indexWorld) ask(h *handle, meanwhile func()) {
	p, q := x.query(h)
	var all, again, prefix []J
	var count int
	var first Datum
	var has bool
	stopAt := x.r.IntN(6)
	e := ev{"k": "sel", "s": h.n, "p": p, "q": rawDatumJ(q)}
	msg := x.h.guard(func() {
		seq := x.sequence(h, p, q)
		next, stop := iter.Pull(seq)
		for n := 0; ; n++ {
			if n == stopAt && meanwhile != nil {
				meanwhile()
			}
			d, ok := next()
			if !ok {
				break
			}
			all = append(all, datumJ(d))
		}
		stop()
		for d := range seq {
			if len(prefix) == stopAt {
				break
			}
			prefix = append(prefix, datumJ(d))
		}
		for d := range seq {
			again = append(again, datumJ(d))
		}
		if p != "all" {
			count = h.idx.Count(partialOf[p], q)
			first, has = h.idx.First(partialOf[p], q)
		}
	})
	e["seq"] = append([]J{}, all...)
	e["again"] = sameSeq(all, again)
	e["prefix"] = len(prefix) == min(stopAt, len(all)) && sameSeq(prefix, all[:len(prefix)])
	e["count"] = count
	e["has"] = has
	e["first"] = []J{}
	if has {
		e["first"] = datumJ(first)
	}
	e["panic"] = msg
	x.h.add(e)
}

// look asks an index whatever tells most about its contents.
func (x *indexWorld) look(h *handle) {
	if h.kind == "VAE" {
		x.batch("find", h, x.some(h, 15, 85))
		return
	}
	x.ask(h, nil)
}

func (x *indexWorld) change(h *handle, size int) {
	switch x.r.weighted([]int{60, 40}) {
	case 0:
		x.batch("ins", h, x.some(h, 1+x.r.IntN(size), 35))
	case 1:
		x.batch("del", h, x.some(h, 1+x.r.IntN(size), 85))
	}
}

func runIndex(h *history, r rng, scale int) {
	x := &indexWorld{r: r, h: h, degree: pick(r, []int{2, 2, 3, 4, 7, 64}), maxE: pick(r, []int{3, 8, 20, 40})}
	p := profiles["all"]
	x.w = newWorld(r, &history{}, p)
	n := 1 + r.IntN(8)
	for i := range n {
		typ := scalarTypes[i%len(scalarTypes)]
		if r.chance(40) {
			typ = pick(r, scalarTypes)
		}
		x.types = append(x.types, typ)
	}
	if r.chance(50) {
		r.Shuffle(len(x.types), func(i, j int) { x.types[i], x.types[j] = x.types[j], x.types[i] })
	}
	size := 12
	if x.degree > 4 || r.chance(25) {
		size = 60
	}
	if x.degree == 64 {
		size = 200
		x.maxE = 40
	}
	first := x.open()
	first.attrs = max(first.attrs, 1)
	x.batch("ins", first, x.some(first, size, 10))
	for range 45 * scale / 100 {
		hh := pick(r, x.handles)
		switch r.weighted([]int{30, 20, 10, 12, 3, 3, 3, 5, 8}) {
		case 0:
			x.change(hh, size)
			x.look(pick(r, x.handles))
		case 1:
			x.look(hh)
		case 2:
			x.batch("find", hh, x.some(hh, 1+r.IntN(8), 80))
		case 3:
			if len(x.handles) < 7 {
				c := x.clone(hh)
				// The original and the clone go their own ways at once.
				x.change(pick(r, []*handle{hh, c}), size)
				x.look(hh)
				x.look(c)
			}
		case 4:
			if len(x.handles) > 3 {
				x.drop(r.IntN(len(x.handles)))
			}
		case 5:
			if len(x.handles) < 7 {
				o := x.open()
				x.batch("ins", o, x.some(o, size, 50))
			}
		case 6:
			// More attributes, for this index only.
			if hh.attrs < len(x.types) {
				hh.attrs++
				types := x.attrTypes(hh.attrs)
				h.guard(func() { hh.idx.Retype(types) })
				x.batch("ins", hh, x.some(hh, 3, 0))
			}
		case 7:
			// Empty it.
			var ds []Datum
			for _, d := range x.given {
				if x.known(hh, d) {
					ds = append(ds, d)
				}
			}
			r.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
			x.batch("del", hh, ds[:min(len(ds), 40)])
			x.look(hh)
		case 8:
			// Change another while reading this one.
			if hh.kind == "VAE" || len(x.handles) < 2 {
				continue
			}
			other := pick(r, x.handles)
			if other == hh {
				x.ask(hh, func() {
					if len(x.handles) < 7 {
						c := x.clone(hh)
						x.change(c, size)
					}
				})
			} else {
				x.ask(hh, func() { x.change(other, size) })
			}
		}
	}
	for _, hh := range x.handles {
		x.look(hh)
	}
}
