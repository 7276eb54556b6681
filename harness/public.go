package main

import (
	"reflect"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	public "github.com/dball/destructive/pkg/database"
)

// pworld is a public database as its users see it.
type pworld struct {
	*sworld
	pdb   public.Database
	pkept []pkept
	now   pkept
	typed map[int]map[string]func(id uint64) (any, bool)
	// what was seen of the entities, for identifying them
	seen map[uint64]map[string]any
}

type pkept struct {
	k    int
	snap *public.Snapshot
}

func runPublic(h *history, r rng, sp sprofile) {
	w := newWorld(r, h, profile{})
	w.hw = sys.FirstUserID - 1
	u := chooseUniverse(r, sp)
	for u.style == "conflicts" {
		u = pick(r, universes)
	}
	s := &sworld{world: w, g: newGraphs(r, sp), sp: sp, u: u}
	p := &pworld{sworld: s, typed: map[int]map[string]func(id uint64) (any, bool){}, seen: map[uint64]map[string]any{}}
	s.lookup = func(e uint64, f fieldDesc) any { return p.seen[e][f.ident] }
	cfg := public.Config{Degree: pick(r, []int{0, 2, 3, 64}), AttrsSize: r.IntN(3), IdentsSize: r.IntN(3)}
	e := ev{"k": "init", "types": s.u.J(), "panic": ""}
	e["panic"] = h.guard(func() { p.pdb = public.NewDatabase(cfg) })
	h.add(e)
	if e["panic"] != "" {
		return
	}
	p.keepNow(nil)
	for len(h.Events) < sp.events*2 && !h.hung {
		switch r.weighted([]int{sp.record, sp.retract, sp.find, sp.keep}) {
		case 0:
			p.writeSome(true, r.chance(sp.retract/2))
		case 1:
			p.writeSome(false, true)
		case 2:
			p.findSome()
		case 3:
			p.keepNow(nil)
			p.pkept = append(p.pkept, p.now)
			if len(p.pkept) > 4 {
				p.drop(p.pkept[0])
				p.pkept = p.pkept[1:]
			}
		}
	}
	for range 6 {
		p.findSome()
	}
}

func (p *pworld) drop(k pkept) {
	p.h.add(ev{"k": "drop", "s": k.k})
	delete(p.typed, k.k)
}

// keepNow takes a snapshot as that to look at, for which a response may be the source.
func (p *pworld) keepNow(snap *public.Snapshot) {
	if snap == nil {
		msg := p.h.guard(func() { snap = p.pdb.Read() })
		if msg != "" || snap == nil {
			e := ev{"k": "pw", "heap": []J{}, "types": []J{}, "as": []J{}, "rs": []J{}, "ok": true, "ids": []J{}, "panic": msg, "err": "read", "snil": snap == nil}
			p.h.add(e)
			return
		}
	}
	kept := false
	for _, k := range p.pkept {
		kept = kept || k.k == p.now.k
	}
	if !kept && p.now.k != 0 {
		p.drop(p.now)
	}
	p.nsnap++
	p.now = pkept{p.nsnap, snap}
	p.h.add(ev{"k": "snap", "s": p.nsnap})
}

func (p *pworld) writeSome(record, retract bool) {
	p.g.begin()
	r := p.r
	var as, rs []any
	if record {
		as = p.parts(p.instance)
		if r.chance(p.sp.bad) {
			as[r.IntN(len(as))] = p.oddPart()
		}
	}
	if retract {
		rs = p.parts(p.retraction)
		if record {
			rs = rs[:1]
		}
	}
	if r.chance(1) {
		as, rs = nil, nil
	}
	p.write(as, rs)
}

// write writes a request and looks at what comes of it. It returns the ids of the response.
func (p *pworld) write(as, rs []any) (ids []ID, ok bool) {
	r := p.r
	hp := newHeap(true)
	aj, rj, types := []J{}, []J{}, []J{}
	for _, a := range as {
		aj = append(aj, rootJ(hp, a))
		name := "alien"
		if typ := reflect.TypeOf(a); typ != nil {
			if typ.Kind() == reflect.Pointer {
				typ = typ.Elem()
			}
			if d := descOf[typ]; d != nil {
				name = d.name
			}
		}
		types = append(types, name)
	}
	for _, x := range rs {
		rj = append(rj, rootJ(hp, x))
	}
	e := ev{"k": "pw", "heap": hp.nodes, "types": types, "as": aj, "rs": rj, "ok": false, "ids": []J{}, "panic": "", "err": "", "snil": false}
	p.h.add(e)
	var res public.Response
	as, rs, kept := lendParts(p.r, as, rs)
	same := p.h.watch()
	e["panic"] = p.h.guard(func() {
		res = p.pdb.Write(public.Request{Assertions: as, Retractions: rs})
		say(res.Error)
	})
	e["kept"] = kept()
	e["past"] = same()
	if e["panic"] != "" {
		return nil, false
	}
	e["ok"] = res.Error == nil
	if er, is := res.Error.(Error); is {
		e["err"] = er.Code
	}
	told := []J{}
	if res.Error == nil {
		for _, id := range res.IDs {
			told = append(told, idJ(ID(id)))
			ids = append(ids, ID(id))
			p.learnID(id)
		}
	}
	e["ids"] = told
	for i := range res.IDs {
		// The caller may do with it what it likes.
		if r.chance(30) {
			defer func() { res.IDs[i] = 5 }()
		}
	}
	p.h.remember(res.IDs)
	e["snil"] = res.Snap == nil
	if res.Snap == nil || r.chance(40) {
		p.keepNow(nil)
	} else {
		p.keepNow(res.Snap)
	}
	ok = res.Error == nil
	if p.quiet {
		return
	}
	// What was written is the caller's to change again.
	if r.chance(10) {
		for _, a := range as {
			if v := reflect.ValueOf(a); v.Kind() == reflect.Pointer && !v.IsNil() && !p.isLive(v) && descOf[v.Type().Elem()] != nil {
				scribble(v.Elem(), map[any]bool{})
			}
		}
		p.live = nil
	}
	if res.Error == nil {
		for i, a := range as {
			if i < len(res.IDs) && r.chance(70) {
				typ := reflect.TypeOf(a)
				if typ.Kind() == reflect.Pointer {
					typ = typ.Elem()
				}
				p.find(p.now, descOf[typ], res.IDs[i])
			}
		}
		return
	}
	// Nothing of it is to be seen.
	for range 3 {
		if len(p.g.ids) > 0 {
			p.find(p.now, pick(r, p.u.good()), pick(r, p.g.ids))
		}
	}
	return
}

func (p *pworld) isLive(v reflect.Value) bool {
	for _, x := range p.live {
		if x.Pointer() == v.Pointer() {
			return true
		}
	}
	return false
}

func (p *pworld) learnID(id uint64) {
	if ID(id) < sys.FirstUserID || id >= bigID {
		return
	}
	for _, x := range p.g.ids {
		if x == id {
			return
		}
	}
	p.g.ids = append(p.g.ids, id)
}

func (p *pworld) findSome() {
	r := p.r
	k := p.now
	if len(p.pkept) > 0 && r.chance(p.sp.oldp+10) {
		k = pick(r, p.pkept)
	}
	d := pick(r, p.u.good())
	if r.chance(4) {
		d = pick(r, p.u.types)
	}
	p.find(k, d, p.anyEntity())
}

func (p *pworld) find(k pkept, d *typeDesc, id uint64) {
	e := ev{"k": "find", "s": k.k, "t": d.name, "e": idJ(ID(id)), "panic": "", "err": "", "found": false, "heap": []J{}, "root": 0, "re": false}
	p.h.add(e)
	var x any
	found := false
	e["panic"] = p.h.guard(func() {
		// A typed snapshot may be used again.
		find := p.typed[k.k][d.name]
		if find == nil || p.r.chance(30) {
			var err error
			find, err = d.again(k.snap)
			if err != nil {
				e["err"] = "typed"
				return
			}
			if p.typed[k.k] == nil {
				p.typed[k.k] = map[string]func(id uint64) (any, bool){}
			}
			p.typed[k.k][d.name] = find
		}
		x, found = find(id)
	})
	if e["panic"] != "" || !found {
		return
	}
	e["found"] = true
	hp := newHeap(false)
	e["root"] = hp.pointer(reflect.ValueOf(x))
	e["heap"] = hp.nodes
	for _, in := range hp.insts {
		if in.id == 0 {
			continue
		}
		p.learnID(in.id)
		if p.seen[in.id] == nil {
			p.seen[in.id] = map[string]any{}
		}
		v := in.v
		for i := range in.vals {
			f := in.desc.fields[i]
			y := v.Field(f.index)
			if y.Kind() == reflect.Pointer {
				y = y.Elem()
			}
			p.seen[in.id][f.ident] = plainValue(y)
		}
	}
	if p.r.chance(p.sp.mutate) {
		scribble(reflect.ValueOf(x).Elem(), map[any]bool{})
		at := len(p.h.Events)
		p.find(k, d, id)
		if at < len(p.h.Events) {
			p.h.Events[at]["re"] = true
		}
	}
}

// plainValue is a scalar as one of the types the generators deal in.
func plainValue(y reflect.Value) any {
	for _, t := range []reflect.Type{reflect.TypeFor[string](), reflect.TypeFor[int](), reflect.TypeFor[bool](), reflect.TypeFor[float64]()} {
		if y.Kind() == t.Kind() {
			return y.Convert(t).Interface()
		}
	}
	return y.Interface()
}
