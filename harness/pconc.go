package main

import (
	"encoding/json"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	"github.com/dball/destructive/internal/verifsync"
	public "github.com/dball/destructive/pkg/database"
)

// Histories in which several goroutines use one public database.

type pop struct {
	read  bool
	as    []any
	rs    []any
	mark  int // which of the assertions is the mark
	ask   []pask
	e     ev
	call  int64
	ret   int64
	res   public.Response
	snap  *public.Snapshot
	panic string
}

type pask struct {
	desc *typeDesc
	id   uint64
}

// pshared is a snapshot all the goroutines look at, and what there is to be found in it.
type pshared struct {
	k    pkept
	asks []pask
	// typed are typed snapshots for all to use, where there are any.
	typed []func(id uint64) (any, bool)
}

type pconc struct {
	*pworld
	sh    *pshared
	clock atomic.Int64
	ticks int
}

// prepare makes up a request, and encodes it before anyone can change it.
func (c *pconc) prepare() *pop {
	r := c.r
	c.g.begin()
	c.live = nil
	o := &pop{}
	switch {
	case r.chance(12):
		o.rs = c.parts(c.retraction)
	case r.chance(6):
		o.as, o.rs = c.parts(c.instance), c.parts(c.retraction)[:1]
	default:
		o.as = c.parts(c.instance)
	}
	if r.chance(c.sp.bad) && len(o.as) > 0 {
		o.as[r.IntN(len(o.as))] = c.oddPart()
	}
	c.live = nil
	return o
}

func (c *pconc) finish(o *pop) *pop {
	c.ticks++
	mark := any(&conMark{Tick: c.ticks})
	if c.r.chance(30) {
		mark = conMark{Tick: c.ticks}
	}
	o.mark = c.r.IntN(len(o.as) + 1)
	o.as = append(append(append([]any{}, o.as[:o.mark]...), mark), o.as[o.mark:]...)
	hp := newHeap(true)
	aj, rj, types := []J{}, []J{}, []J{}
	for _, a := range o.as {
		aj = append(aj, rootJ(hp, a))
		types = append(types, typeName(a))
	}
	for _, x := range o.rs {
		rj = append(rj, rootJ(hp, x))
	}
	o.e = ev{"k": "pw", "heap": hp.nodes, "types": types, "as": aj, "rs": rj, "ok": false, "ids": []J{}, "panic": "", "err": "", "snil": false, "conc": true}
	return o
}

func (c *pconc) asks() (as []pask) {
	for range 2 {
		as = append(as, pask{pick(c.r, c.u.good()), c.anyEntity()})
	}
	return
}

// share takes a snapshot for all the goroutines to look at.
func (c *pconc) share() (ok bool) {
	n := c.nsnap
	c.keepNow(nil)
	if c.nsnap == n {
		return false
	}
	c.sh = &pshared{k: c.now}
	for range 2 + c.r.IntN(4) {
		q := pask{pick(c.r, c.u.good()), c.anyEntity()}
		var find func(id uint64) (any, bool)
		if c.r.chance(60) {
			c.h.guard(func() { find, _ = q.desc.again(c.now.snap) })
		}
		c.sh.asks = append(c.sh.asks, q)
		c.sh.typed = append(c.sh.typed, find)
	}
	return true
}

// peek finds something in the shared snapshot.
func (c *pconc) peek(r rng) (e ev, ids []uint64) {
	n := r.IntN(len(c.sh.asks))
	q, find := c.sh.asks[n], c.sh.typed[n]
	e = ev{"k": "find", "s": c.sh.k.k, "t": q.desc.name, "e": idJ(ID(q.id)), "panic": "", "err": "", "found": false, "heap": []J{}, "root": 0, "re": false, "conc": true}
	var x any
	found := false
	e["panic"] = guarded(func() {
		if find == nil {
			var err error
			find, err = q.desc.again(c.sh.k.snap)
			if err != nil {
				e["err"] = "typed"
				return
			}
		}
		x, found = find(q.id)
	})
	if e["panic"] != "" || !found {
		return
	}
	e["found"] = true
	hp := newHeap(false)
	e["root"] = hp.pointer(reflect.ValueOf(x))
	e["heap"] = hp.nodes
	for _, in := range hp.insts {
		ids = append(ids, uint64(in.id))
	}
	if r.chance(30) {
		// What has been found belongs to the finder.
		scribble(reflect.ValueOf(x).Elem(), map[any]bool{})
	}
	return
}

type pfound struct {
	e   ev
	ids []uint64
}

// unshare tells what the goroutines found in the shared snapshot, the same once.
func (c *pconc) unshare(founds [][]pfound) {
	told := map[string]bool{}
	for _, fs := range founds {
		for _, f := range fs {
			b, err := json.Marshal(f.e)
			if err != nil {
				panic(err)
			}
			if told[string(b)] {
				continue
			}
			told[string(b)] = true
			for _, id := range f.ids {
				c.learnID(id)
			}
			c.h.add(f.e)
		}
	}
}

func (c *pconc) process(ops []*pop, r rng) (founds []pfound) {
	for _, o := range ops {
		for r.chance(35) {
			e, ids := c.peek(r)
			founds = append(founds, pfound{e, ids})
		}
		o.call = c.clock.Add(1)
		o.panic = guarded(func() {
			if o.read {
				o.snap = c.pdb.Read()
			} else {
				o.res = c.pdb.Write(public.Request{Assertions: o.as, Retractions: o.rs})
				o.snap = o.res.Snap
			}
		})
		o.ret = c.clock.Add(1)
		if o.snap != nil && o.panic == "" && r.chance(50) {
			msg := guarded(func() {
				for _, q := range o.ask {
					q.desc.find(o.snap, q.id)
				}
				for i, a := range o.as {
					if i < len(o.res.IDs) && o.res.Error == nil {
						if d := descOf[structType(a)]; d != nil {
							d.find(o.snap, o.res.IDs[i])
						}
					}
				}
			})
			if msg != "" {
				o.panic = msg
			}
		}
	}
	return
}

func structType(a any) reflect.Type {
	typ := reflect.TypeOf(a)
	if typ != nil && typ.Kind() == reflect.Pointer {
		typ = typ.Elem()
	}
	return typ
}

func typeName(a any) string {
	if typ := structType(a); typ != nil && descOf[typ] != nil {
		return descOf[typ].name
	}
	return "alien"
}

func (c *pconc) phase() bool {
	r := c.r
	procs := 2 + r.IntN(6)
	lists := make([][]*pop, procs)
	for range 1 + r.IntN(3) {
		// The same to be done by several, and what each does besides.
		base := c.prepare()
		for p := range lists {
			if r.chance(70) {
				o := &pop{as: append([]any{}, base.as...), rs: base.rs, ask: c.asks()}
				lists[p] = append(lists[p], c.finish(o))
			}
			for range r.IntN(3) {
				if r.chance(40) {
					lists[p] = append(lists[p], &pop{read: true, ask: c.asks()})
				} else {
					o := c.finish(c.prepare())
					o.ask = c.asks()
					lists[p] = append(lists[p], o)
				}
			}
		}
	}
	if !c.share() {
		return true
	}
	founds := make([][]pfound, procs)
	rngs := make([]rng, procs)
	for p := range rngs {
		rngs[p] = newRng(r.Uint64(), uint64(p))
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for p := range procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			founds[p] = c.process(lists[p], rngs[p])
		}()
	}
	verifsync.Stir(r.IntN(3))
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		verifsync.Stir(0)
	case <-time.After(hangAfter):
		c.h.hung = true
		c.h.add(ev{"k": "hang", "what": "the processes do not come to an end"})
		return false
	}
	c.unshare(founds)
	c.account(lists)
	return true
}

func (c *pconc) account(lists [][]*pop) {
	var accepted, others []*pop
	markOf := func(o *pop) uint64 {
		if o.read || o.panic != "" || o.res.Error != nil || o.mark >= len(o.res.IDs) {
			return 0
		}
		return o.res.IDs[o.mark]
	}
	for _, l := range lists {
		for _, o := range l {
			if markOf(o) != 0 {
				accepted = append(accepted, o)
			} else {
				others = append(others, o)
			}
		}
	}
	final := &pop{read: true, ask: c.asks(), call: c.clock.Add(1)}
	final.panic = c.h.guard(func() { final.snap = c.pdb.Read() })
	final.ret = c.clock.Add(1)
	sort.SliceStable(accepted, func(i, j int) bool { return markOf(accepted[i]) < markOf(accepted[j]) })
	sort.SliceStable(others, func(i, j int) bool { return others[i].call < others[j].call })
	others = append(others, final)
	marks, times := []J{}, []J{}
	for _, o := range accepted {
		marks = append(marks, idJ(ID(markOf(o))))
		times = append(times, []J{o.call, o.ret})
	}
	visible := func(s *public.Snapshot) (seen []J) {
		seen = []J{}
		for _, o := range accepted {
			x, found, _ := markDesc.find(s, markOf(o))
			if found && x.(*conMark).ID == markOf(o) && x.(*conMark).Tick != 0 {
				seen = append(seen, idJ(ID(markOf(o))))
			}
		}
		return
	}
	c.h.add(ev{"k": "pfork", "marks": marks, "times": times})
	at := make([][]*pop, len(accepted)+1)
	looked := map[*pop][]J{}
	for _, o := range others {
		k := 0
		if o.snap != nil {
			o.panic = c.h.guard(func() { looked[o] = visible(o.snap); k = len(looked[o]) })
		}
		at[k] = append(at[k], o)
	}
	place := func(o *pop, k int) {
		seen := looked[o]
		msg := o.panic
		if seen == nil && o.snap != nil && msg == "" {
			msg = c.h.guard(func() { seen = visible(o.snap) })
		}
		if seen == nil {
			seen = []J{}
		}
		if !o.read {
			o.e["panic"] = o.panic
			o.e["ok"] = o.res.Error == nil
			if er, is := o.res.Error.(Error); is {
				o.e["err"] = er.Code
			}
			ids := []J{}
			if o.res.Error == nil {
				for i, id := range o.res.IDs {
					ids = append(ids, idJ(ID(id)))
					if i != o.mark {
						c.learnID(id)
					}
				}
			}
			o.e["ids"] = ids
			o.e["snil"] = o.snap == nil
			c.h.add(o.e)
		}
		c.h.add(ev{"k": "pmark", "at": k, "marks": seen, "call": o.call, "ret": o.ret, "panic": msg, "snil": o.snap == nil})
		if msg != "" || o.snap == nil {
			return
		}
		c.keepNow(o.snap)
		for _, q := range o.ask {
			c.findConc(q.desc, q.id)
		}
		for i, a := range o.as {
			if d := descOf[structType(a)]; d != nil && i < len(o.res.IDs) && o.res.Error == nil {
				c.findConc(d, o.res.IDs[i])
			}
		}
	}
	for _, o := range at[0] {
		place(o, 0)
	}
	for n, o := range accepted {
		place(o, n+1)
		for _, x := range at[n+1] {
			place(x, n+1)
		}
	}
}

func (c *pconc) findConc(d *typeDesc, id uint64) {
	n := len(c.h.Events)
	c.find(c.now, d, id)
	for _, e := range c.h.Events[n:] {
		e["conc"] = true
	}
}

// agree says whether the types declare their attributes alike. What is left behind by declarations that
// contradict one another depends on which of them come first.
func (u universe) agree() bool {
	db := public.NewDatabase(public.Config{})
	for _, d := range u.good() {
		res := db.Write(public.Request{Assertions: []any{reflect.New(d.typ).Interface()}})
		if er, is := res.Error.(Error); is && strings.HasPrefix(er.Code, "database.write.attr") {
			return false
		}
	}
	return true
}

func runPConc(h *history, r rng, scale int) {
	sp := sprofiles["public"]
	sp.mutate = 0
	sp.reuse = 45
	sp.bad = 4
	w := newWorld(r, h, profile{})
	w.hw = sys.FirstUserID - 1
	u := chooseUniverse(r, sp)
	for range 40 {
		agree := u.style != "conflicts"
		if agree {
			h.guard(func() { agree = u.agree() })
		}
		if agree || h.hung {
			break
		}
		u = pick(r, universes)
	}
	s := &sworld{world: w, g: newGraphs(r, sp), sp: sp, u: u}
	p := &pworld{sworld: s, typed: map[int]map[string]func(id uint64) (any, bool){}, seen: map[uint64]map[string]any{}}
	s.lookup = func(e uint64, f fieldDesc) any { return p.seen[e][f.ident] }
	c := &pconc{pworld: p}
	cfg := public.Config{Degree: pick(r, []int{0, 2, 3, 64}), AttrsSize: r.IntN(3), IdentsSize: r.IntN(3)}
	shown := universe{u.style, append(append([]*typeDesc{}, u.types...), markDesc)}
	e := ev{"k": "init", "types": shown.J(), "panic": ""}
	e["panic"] = h.guard(func() { p.pdb = public.NewDatabase(cfg) })
	h.add(e)
	if e["panic"] != "" {
		return
	}
	p.keepNow(nil)
	for range r.IntN(5) {
		p.writeSome(true, false)
	}
	for range 1 + r.IntN(2) {
		for range max(1, scale/100) {
			p.live = nil
			if h.hung || !c.phase() {
				return
			}
		}
		p.writeSome(true, r.chance(30))
		p.findSome()
	}
}
