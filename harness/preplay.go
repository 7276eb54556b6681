package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	public "github.com/dball/destructive/pkg/database"
)

// runPErrand does in the public database as much of the errand as one history can show, and returns what is left to do.
func runPErrand(h *history, r rng, sw *smallStructs, u universe, e errand) errand {
	w := newWorld(r, h, profile{})
	w.hw = sys.FirstUserID - 1
	s := &sworld{world: w, g: newGraphs(r, sprofile{}), u: u, quiet: true, sp: sprofile{mutate: 10}}
	p := &pworld{sworld: s, typed: map[int]map[string]func(id uint64) (any, bool){}, seen: map[uint64]map[string]any{}}
	open := func() { p.pdb = public.NewDatabase(public.Config{Degree: pick(r, []int{0, 2, 3, 64})}) }
	nothing := errand{Path: e.Path}
	init := ev{"k": "init", "types": u.J(), "panic": ""}
	init["panic"] = h.guard(open)
	h.add(init)
	if init["panic"] != "" {
		return nothing
	}
	p.keepNow(nil)
	names := map[string]ID{}
	// prepare records what comes before the requests of the errand.
	prepare := func() bool {
		for i, g := range append(append([]smallGraph{}, sw.Setup...), pickAll(sw.Requests, e.Path)...) {
			as, rs := s.small(g, names)
			ids, ok := p.write(as, rs)
			if !ok || h.hung || len(ids) != len(as) {
				return false
			}
			if i < len(sw.Setup) {
				for k, name := range g.Names {
					names[name] = ids[k]
				}
			}
		}
		return true
	}
	if !prepare() {
		return nothing // which the specification has something to say about, if it should not be
	}
	h.add(ev{"k": "mark"})
	top := w.top(p.g.ids)
	before, bound := p.dump(top), fmt.Sprint(names)
	p.findAll(nil, top)
	for len(e.Requests) > 0 {
		as, rs := s.small(sw.Requests[e.Requests[0]-1], names)
		e.Requests = e.Requests[1:]
		ids, ok := p.write(as, rs)
		if h.hung || h.Events[len(h.Events)-1]["panic"] != nil && h.Events[len(h.Events)-1]["panic"] != "" {
			return nothing
		}
		p.findAll(ids, top)
		if !ok {
			continue // the state is the same
		}
		if len(e.Requests) == 0 {
			break
		}
		// The database is made anew, from the same requests, unremarked.
		same := false
		events, now, seen := h.Events, p.now, p.g.ids
		for range 4 {
			h.Events = append([]ev{}, events...)
			msg := h.guard(func() {
				open()
				same = prepare()
			})
			if msg != "" || h.hung {
				h.Events = events
				return e
			}
			same = same && fmt.Sprint(names) == bound && p.dump(top) == before
			if same {
				break
			}
		}
		h.Events, p.now, p.g.ids = events, now, seen
		clear(p.typed)
		if !same {
			return e
		}
		h.add(ev{"k": "back"})
		p.keepNow(nil)
	}
	return nothing
}

// top is the last id that anything may have.
func (w *world) top(ids []uint64) (top uint64) {
	for _, id := range ids {
		top = max(top, id)
	}
	return top + 12
}

// dump is what the entities up to an id are found to be, as all the types.
func (p *pworld) dump(top uint64) (all string) {
	p.h.guard(func() {
		for _, d := range p.u.types {
			find, err := d.again(p.pdb.Read())
			if err != nil {
				continue
			}
			for id := uint64(sys.FirstUserID); id <= top; id++ {
				if x, found := find(id); found {
					hp := newHeap(false)
					root := hp.pointer(reflect.ValueOf(x))
					b, _ := json.Marshal([]J{d.name, id, root, hp.nodes})
					all += string(b)
				}
			}
		}
	})
	return
}

// findAll finds entities as types: those told, and a few others.
func (p *pworld) findAll(told []ID, top uint64) {
	for _, id := range told {
		for _, d := range p.u.types {
			p.find(p.now, d, uint64(id))
		}
	}
	for range 4 {
		if len(p.g.ids) > 0 {
			p.find(p.now, pick(p.r, p.u.types), pick(p.r, p.g.ids))
		}
	}
	p.find(p.now, pick(p.r, p.u.types), uint64(sys.FirstUserID)+uint64(p.r.IntN(int(top-uint64(sys.FirstUserID)))))
}
