package main

import (
	"encoding/json"
	"iter"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	"github.com/dball/destructive/internal/verifsync"
)

// Histories in which several goroutines use one database at once.

const tagIdent = "conc/tag"

type op struct {
	read   bool
	req    Request
	call   int64
	ret    int64
	res    Response
	snap   Snapshot
	data   []Datum // what the snapshot showed at once, if it was looked at
	looked bool
	panic  string
}

// shared is a snapshot all the goroutines look at, and what there is to ask it.
type shared struct {
	k      int
	snap   Snapshot
	data   []Datum
	claims []Claim
	seqs   []iter.Seq[Datum] // nil where the query has not been made
}

// answer is what a goroutine was told by the shared snapshot.
type answer struct {
	e ev
}

type concWorld struct {
	*world
	sh    *shared
	clock atomic.Int64
	tag   int
	tagA  ID
}

// guarded runs an operation in this goroutine and reports its panic, if any.
func guarded(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = describePanic(r)
		}
	}()
	f()
	return
}

func (c *concWorld) tagClaim() Claim {
	c.tag++
	return Claim{E: TxnID{}, A: c.tagA, V: Int(100000 + c.tag)}
}

// concurrent are the scenarios whose requests make sense some time after they were made up.
var concurrent = map[string]int{"plain": 14, "many": 8, "replace": 12, "reassert": 4, "retract": 10, "cardone": 3,
	"identity": 20, "idmix": 6, "value": 14, "temps": 8, "declare": 6, "badattr": 1, "redeclare": 1, "attrchange": 1,
	"sys": 1, "sysident": 1, "idents": 10, "badref": 2, "badval": 2, "entity": 8, "badret": 1, "txn": 5, "late": 3,
	"refs": 8}

// rivals makes requests that contend for the same thing.
func (c *concWorld) rivals(n int) (reqs []Request) {
	base := c.scenario()
	for range n {
		req := Request{Claims: append([]Claim{}, base.Claims...)}
		for i := range req.Claims {
			// The same claims, of entities of their own.
			if c.r.chance(30) {
				req.Claims[i].E = c.temp()
			}
		}
		for _, ret := range base.Retractions {
			req.Retractions = append(req.Retractions, ret)
		}
		if c.r.chance(30) {
			more := c.scenario()
			req.Claims = append(req.Claims, more.Claims...)
		}
		reqs = append(reqs, req)
	}
	return
}

func (c *concWorld) scenario() Request {
	weights := make([]int, len(scenarioNames))
	for i, name := range scenarioNames {
		weights[i] = concurrent[name]
	}
	return scenarios[scenarioNames[c.r.weighted(weights)]](c.world)
}

// insertTag adds the claim that tells the states apart.
func (c *concWorld) insertTag(req Request) Request {
	t := c.tagClaim()
	if c.r.chance(30) {
		req.Claims = append([]Claim{t}, req.Claims...)
	} else {
		req.Claims = append(append([]Claim{}, req.Claims...), t)
	}
	return req
}

// phase lets goroutines loose on the database and records what comes of it.
func (c *concWorld) phase(eager bool) (ok bool) {
	r := c.r
	procs := 2 + r.IntN(7)
	lists := make([][]*op, procs)
	add := func(p int, req Request) {
		lists[p] = append(lists[p], &op{req: c.insertTag(req)})
	}
	for range 1 + r.IntN(4) {
		for p, req := range c.rivals(procs) {
			add(p, req)
		}
		for p := range lists {
			for range r.IntN(3) {
				switch {
				case r.chance(45):
					lists[p] = append(lists[p], &op{read: true})
				default:
					add(p, c.scenario())
				}
			}
		}
	}
	// Some processes are readers.
	for p := range lists {
		if p > 0 && r.chance(20) {
			for _, o := range lists[p] {
				o.read = true
				o.req = Request{}
			}
		}
	}
	if !c.share() {
		return true
	}
	answers := make([][]answer, procs)
	c.h.add(ev{"k": "fork", "procs": procs})
	rngs := make([]rng, procs)
	for p := range rngs {
		rngs[p] = newRng(r.Uint64(), uint64(p))
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for p := range procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			answers[p] = c.process(lists[p], rngs[p], eager)
		}()
	}
	verifsync.Stir(r.IntN(3))
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		verifsync.Stir(0)
	case <-time.After(hangAfter):
		c.h.hung = true
		c.h.add(ev{"k": "hang", "what": "the processes do not come to an end"})
		return false
	}
	c.account(lists)
	c.unshare(answers)
	return true
}

// share takes a snapshot for all the goroutines to look at.
func (c *concWorld) share() (ok bool) {
	c.sh = &shared{}
	msg := c.h.guard(func() { c.sh.snap = c.read() })
	if msg != "" || c.sh.snap == nil {
		c.h.add(ev{"k": "obs", "s": 0, "panic": msg, "add": []J{}, "del": []J{}, "n": 0, "ids": []J{}, "aids": []J{}})
		return false
	}
	// Nothing is asked of the snapshot before the goroutines do, but for some of the selections.
	c.nsnap++
	c.sh.k = c.nsnap
	c.sh.data = c.data
	c.h.add(ev{"k": "snap", "s": c.sh.k, "how": "shared"})
	for range 4 + c.r.IntN(12) {
		claim := c.queryClaim(c.data)
		var seq iter.Seq[Datum]
		if c.r.chance(30) {
			c.h.guard(func() { seq = c.sh.snap.Select(claim) })
		}
		c.sh.claims = append(c.sh.claims, claim)
		c.sh.seqs = append(c.sh.seqs, seq)
	}
	return true
}

// peek looks at the shared snapshot.
func (c *concWorld) peek(r rng) (a answer) {
	sh := c.sh
	if r.chance(20) {
		e := ev{"k": "obs", "s": sh.k, "panic": "", "add": []J{}, "del": []J{}, "n": 0, "ids": []J{}, "aids": []J{}, "conc": true}
		e["panic"] = guarded(func() {
			data := c.all(sh.snap)
			e["add"], e["del"] = delta(sh.data, data)
			e["n"] = len(data)
			e["ids"], e["aids"] = c.names(sh.snap)
		})
		return answer{e}
	}
	n := r.IntN(len(sh.claims))
	claim, seq := sh.claims[n], sh.seqs[n]
	e := ev{"k": "q", "s": sh.k, "c": []J{refJ(claim.E), refJ(claim.A), refJ(claim.V)}, "panic": "",
		"seq": []J{}, "count": 0, "has": false, "again": true, "prefix": true, "conc": true}
	e["panic"] = guarded(func() {
		if seq == nil {
			seq = sh.snap.Select(claim)
		}
		var got []Datum
		for d := range seq {
			got = append(got, d)
			if len(got) > 100000 {
				break
			}
		}
		e["seq"] = datumsJ(got)
		e["count"] = sh.snap.Count(claim)
		e["has"] = sh.snap.Has(claim)
	})
	return answer{e}
}

// unshare tells what the goroutines have seen of the shared snapshot, the same once.
func (c *concWorld) unshare(answers [][]answer) {
	told := map[string]bool{}
	for _, as := range answers {
		for _, a := range as {
			b, err := json.Marshal(a.e)
			if err != nil {
				panic(err)
			}
			if !told[string(b)] {
				told[string(b)] = true
				c.h.add(a.e)
			}
		}
	}
	c.h.add(ev{"k": "drop", "s": c.sh.k})
}

// process performs operations one after the other. Nothing but the database is shared.
func (c *concWorld) process(ops []*op, r rng, eager bool) (told []answer) {
	var mine []ID
	for _, o := range ops {
		for r.chance(50) {
			told = append(told, c.peek(r))
		}
		if !o.read && len(mine) > 0 && len(o.req.Claims) > 1 && r.chance(40) {
			// This goroutine knows the ids of its own finished writes.
			for i := range o.req.Claims {
				if _, is := o.req.Claims[i].E.(TempID); is && r.chance(50) {
					o.req.Claims[i].E = pick(r, mine)
				}
			}
		}
		o.call = c.clock.Add(1)
		o.panic = guarded(func() {
			if o.read {
				o.snap = c.read()
			} else {
				o.res = c.db.Write(o.req)
				o.snap = o.res.Snapshot
			}
		})
		o.ret = c.clock.Add(1)
		if eager && o.snap != nil && o.panic == "" && r.chance(60) {
			msg := guarded(func() {
				o.looked = true
				o.data = c.all(o.snap)
				for range 3 {
					if len(o.data) > 0 {
						d := pick(r, o.data)
						o.snap.Count(Claim{E: d.E, A: d.A})
						o.snap.ResolveIdent(Ident(pick(r, c.idents)))
						o.snap.ResolveAttrIdent(d.A)
						o.snap.Has(Claim{A: d.A})
					}
				}
			})
			if msg != "" {
				o.panic = msg
			}
		}
		if !o.read && o.res.Error == nil && o.panic == "" {
			for _, id := range o.res.TempIDs {
				mine = append(mine, id)
			}
		}
	}
	return
}

// sameAs is the datum with a value that equals itself.
func sameAs(d Datum) Datum {
	switch v := d.V.(type) {
	case Inst:
		d.V = Int(time.Time(v).UnixMilli())
	case Float:
		d.V = String(floatTok(float64(v)))
	}
	return d
}

func sameDatums(a, b []Datum) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if sameAs(a[i]) != sameAs(b[i]) {
			return false
		}
	}
	return true
}

// account turns what happened into events: the accepted writes in the order of their ids, then the rest.
func (c *concWorld) account(lists [][]*op) {
	var accepted, others []*op
	for _, l := range lists {
		for _, o := range l {
			if !o.read && o.panic == "" && o.res.Error == nil && o.res.ID != 0 && o.res.Snapshot != nil {
				accepted = append(accepted, o)
			} else {
				others = append(others, o)
			}
			for _, id := range append([]ID{o.res.ID}, sortedIDs(o.res.TempIDs)...) {
				if id > c.hw && id < bigID {
					c.hw = id
				}
				if id >= sys.FirstUserID && id < bigID {
					c.issued = append(c.issued, id)
				}
			}
		}
	}
	sort.SliceStable(accepted, func(i, j int) bool { return accepted[i].res.ID < accepted[j].res.ID })
	sort.SliceStable(others, func(i, j int) bool { return others[i].call < others[j].call })
	states := [][]Datum{c.data}
	for _, o := range accepted {
		e := ev{"k": "cw", "req": reqJ(o.req), "panic": "", "ok": true, "id": idJ(o.res.ID), "err": "", "temps": []J{},
			"add": []J{}, "del": []J{}, "n": 0, "rdiff": []J{}, "ids": []J{}, "aids": []J{}, "snil": false,
			"call": o.call, "ret": o.ret, "views": []J{}, "stable": true}
		temps := []J{}
		names := make([]string, 0, len(o.res.TempIDs))
		for t := range o.res.TempIDs {
			names = append(names, string(t))
		}
		sort.Strings(names)
		for _, t := range names {
			temps = append(temps, []J{t, idJ(o.res.TempIDs[TempID(t)])})
		}
		e["temps"] = temps
		last := states[len(states)-1]
		msg := c.h.guard(func() {
			data := c.all(o.snap)
			e["add"], e["del"] = delta(last, data)
			e["n"] = len(data)
			e["ids"], e["aids"] = c.names(o.snap)
			e["views"] = c.views(o.snap, data)
			if o.looked {
				e["stable"] = sameDatums(o.data, data)
			}
			last = data
		})
		e["panic"] = msg
		states = append(states, last)
		c.h.add(e)
	}
	c.data = states[len(states)-1]
	sets := make([]map[Datum]bool, len(states))
	for k, data := range states {
		sets[k] = map[Datum]bool{}
		for _, d := range data {
			sets[k][sameAs(d)] = true
		}
	}
	final := &op{read: true, call: c.clock.Add(1)}
	final.panic = c.h.guard(func() { final.snap = c.read() })
	final.ret = c.clock.Add(1)
	for _, o := range append(others, final) {
		e := ev{"k": "cr", "req": reqJ(o.req), "rej": !o.read, "panic": o.panic, "err": "", "at": 1, "add": []J{}, "del": []J{},
			"n": 0, "ids": []J{}, "aids": []J{}, "snil": o.snap == nil, "call": o.call, "ret": o.ret, "views": []J{}, "stable": true}
		if er, is := o.res.Error.(Error); is {
			e["err"] = er.Code
		}
		if o.panic == "" && o.snap != nil {
			e["panic"] = c.h.guard(func() {
				data := c.all(o.snap)
				// The state it is most like.
				best, bestDiff := 0, 1<<30
				for k := range states {
					diff := len(states[k]) - len(data)
					if diff < 0 {
						diff = -diff
					}
					for _, d := range data {
						if !sets[k][sameAs(d)] {
							diff++
						}
					}
					if diff < bestDiff {
						best, bestDiff = k, diff
					}
				}
				e["at"] = best + 1
				e["add"], e["del"] = delta(states[best], data)
				e["n"] = len(data)
				e["ids"], e["aids"] = c.names(o.snap)
				e["views"] = c.views(o.snap, data)
				if o.looked {
					e["stable"] = sameDatums(o.data, data)
				}
			})
		}
		c.h.add(e)
	}
	c.learn()
}

func runConc(h *history, r rng, scale int, eager bool) {
	p := profiles["unique"]
	if r.chance(50) {
		p = profiles["all"]
	}
	c := &concWorld{world: newWorld(r, h, p)}
	c.idents = append(c.idents, tagIdent)
	c.open()
	c.declareSome()
	c.write(declareReq([]attrTemplate{{ident: tagIdent, typ: sys.AttrTypeInt}}))
	for id, a := range c.attrs {
		if a.ident == tagIdent {
			c.tagA = id
		}
	}
	if c.tagA == 0 {
		return
	}
	for range 1 + r.IntN(2) {
		for range r.IntN(6) {
			c.write(c.scenario())
		}
		for range max(1, scale/100) {
			if !c.phase(eager) {
				return
			}
		}
	}
	c.write(c.scenario())
}
