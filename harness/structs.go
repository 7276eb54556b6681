package main

import (
	"fmt"
	"reflect"
	"sort"
	"time"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/structs/models"
	"github.com/dball/destructive/internal/structs/schemas"
	"github.com/dball/destructive/internal/structs/shredder"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// sprofile says what histories of structs are like.
type sprofile struct {
	events                                         int
	share, reuse, withID, null, empty, depth       int
	record, retract, find, bad, mutate, keep, oldp int
	many                                           int // percentage of requests with several parts
	big, huge                                      bool
	styles                                         []string
}

var sprofiles = map[string]sprofile{
	"roundtrip": {events: 26, share: 15, reuse: 4, withID: 3, null: 30, empty: 15, depth: 4, record: 50, retract: 3, find: 45, bad: 2, mutate: 10, keep: 10, oldp: 10, many: 25},
	"graphs":    {events: 22, share: 55, reuse: 3, withID: 3, null: 15, empty: 15, depth: 6, record: 50, retract: 3, find: 45, bad: 1, mutate: 5, keep: 8, oldp: 8, many: 40, styles: []string{"graph", "special", "person", "graph", "mixed"}},
	"updates":   {events: 36, share: 15, reuse: 30, withID: 40, null: 45, empty: 25, depth: 2, record: 65, retract: 4, find: 30, bad: 1, mutate: 5, keep: 8, oldp: 8, many: 25},
	"retracts":  {events: 36, share: 10, reuse: 12, withID: 25, null: 45, empty: 15, depth: 2, record: 35, retract: 35, find: 30, bad: 1, mutate: 2, keep: 15, oldp: 25, many: 25},
	"schemas":   {events: 30, share: 15, reuse: 20, withID: 10, null: 60, empty: 15, depth: 2, record: 70, retract: 4, find: 10, bad: 25, mutate: 2, keep: 5, oldp: 5, many: 30, styles: []string{"conflicts", "conflicts", "flat", "mixed", "special", "person"}},
	"malformed": {events: 30, share: 15, reuse: 20, withID: 30, null: 60, empty: 30, depth: 3, record: 55, retract: 25, find: 30, bad: 40, mutate: 2, keep: 5, oldp: 10, many: 40},
	"public":    {events: 32, share: 15, reuse: 30, withID: 25, null: 30, empty: 15, depth: 2, record: 55, retract: 14, find: 30, bad: 8, mutate: 10, keep: 10, oldp: 20, many: 45},
	"big": {events: 8, share: 4, reuse: 2, withID: 3, null: 12, empty: 10, depth: 40, record: 60, retract: 6, find: 30, bad: 1, mutate: 10, keep: 10, oldp: 20, many: 20, big: true,
		styles: []string{"graph", "special", "person", "flat", "mixed"}},
	"huge": {events: 5, share: 2, reuse: 0, withID: 2, null: 4, empty: 10, depth: 200, record: 55, retract: 4, find: 40, bad: 1, mutate: 5, keep: 10, oldp: 20, many: 10, big: true, huge: true,
		styles: []string{"graph", "special", "person", "flat", "mixed"}},
	"long":  {events: 160, share: 15, reuse: 40, withID: 20, null: 30, empty: 15, depth: 2, record: 50, retract: 20, find: 30, bad: 3, mutate: 10, keep: 4, oldp: 20, many: 10},
	"reads": {events: 34, share: 20, reuse: 10, withID: 12, null: 35, empty: 15, depth: 3, record: 30, retract: 8, find: 70, bad: 2, mutate: 40, keep: 15, oldp: 20, many: 25},
}

type skept struct {
	k    int
	snap Snapshot
}

func init() {
	descs[markDesc.name] = markDesc
	descOf[markDesc.typ] = markDesc
	for _, us := range [][]universe{universes, specials} {
		for _, u := range us {
			for _, d := range u.types {
				descs[d.name] = d
			}
		}
	}
}

type sworld struct {
	*world
	g        *graphs
	sp       sprofile
	u        universe
	analyzer models.Analyzer
	snaps    []skept
	latest   Snapshot
	live     []reflect.Value // instances recorded earlier
	// quiet worlds do as they are told: they neither write schemas nor find what they were not asked to.
	quiet bool
	// lookup, if there is one, is how the values of entities are found.
	lookup func(e uint64, f fieldDesc) any
}

func chooseUniverse(r rng, sp sprofile) universe {
	all := append(append([]universe{}, universes...), specials...)
	if len(sp.styles) > 0 {
		style := pick(r, sp.styles)
		var some []universe
		for _, u := range all {
			if u.style == style {
				some = append(some, u)
			}
		}
		return pick(r, some)
	}
	if r.chance(25) {
		return specials[r.IntN(5)]
	}
	return pick(r, all)
}

func (u universe) good() (ds []*typeDesc) {
	for _, d := range u.types {
		if d.bad == "" {
			ds = append(ds, d)
		}
	}
	return
}

func newGraphs(r rng, sp sprofile) *graphs {
	return &graphs{r: r, used: map[string][]any{}, share: sp.share, reuse: sp.reuse, withID: sp.withID,
		null: sp.null, empty: sp.empty, depth: sp.depth, big: sp.big, huge: sp.huge, nils: sp.bad / 2}
}

func runStructs(h *history, r rng, sp sprofile) {
	w := newWorld(r, h, profile{})
	s := &sworld{world: w, g: newGraphs(r, sp), sp: sp, u: chooseUniverse(r, sp)}
	degree := pick(r, []int{2, 3, 16, 64})
	e := ev{"k": "init", "types": s.u.J(), "panic": "", "data": []J{}, "hw": int(w.hw)}
	e["panic"] = h.guard(func() {
		w.db = database.NewIndexDatabase(degree, r.IntN(8), r.IntN(8))
		w.read = w.db.Read
		s.analyzer = models.BuildCachingAnalyzer()
		s.latest = w.db.Read()
		w.data = w.all(s.latest)
		e["data"] = datumsJ(w.data)
	})
	h.add(e)
	if e["panic"] != "" {
		return
	}
	for len(h.Events) < sp.events && !h.hung {
		switch r.weighted([]int{sp.record, sp.retract, sp.find, sp.keep}) {
		case 0:
			s.doRecord(r.chance(sp.retract / 2))
		case 1:
			s.doRetract()
		case 2:
			s.doFind()
		case 3:
			s.keepSnap()
		}
	}
	for range 4 {
		s.doFind()
	}
}

func (s *sworld) keepSnap() {
	s.nsnap++
	s.snaps = append(s.snaps, skept{s.nsnap, s.latest})
	s.h.add(ev{"k": "snap", "s": s.nsnap})
	if len(s.snaps) > 4 {
		s.h.add(ev{"k": "drop", "s": s.snaps[0].k})
		s.snaps = s.snaps[1:]
	}
}

// instance makes or takes an instance to record.
func (s *sworld) instance() any {
	r := s.r
	if len(s.live) > 0 && r.chance(15) {
		// Again, perhaps with changes.
		p := pick(r, s.live)
		if r.chance(50) {
			s.tweak(p)
		}
		if r.chance(30) {
			return p.Elem().Interface()
		}
		return p.Interface()
	}
	d := pick(r, s.u.good())
	p := s.g.pointer(d, s.sp.depth)
	if r.chance(30) {
		s.live = append(s.live, p)
	}
	if r.chance(30) {
		return p.Elem().Interface()
	}
	return p.Interface()
}

// tweak changes a scalar of an instance.
func (s *sworld) tweak(p reflect.Value) {
	d := descOf[p.Elem().Type()]
	f := pick(s.r, d.fields)
	x := p.Elem().Field(f.index)
	switch f.kind {
	case "scalar":
		set(x, s.g.scalar(f))
	case "pscalar":
		if s.r.chance(50) {
			x.Set(reflect.Zero(x.Type()))
		} else {
			x.Set(reflect.New(x.Type().Elem()))
			set(x.Elem(), s.g.scalar(f))
		}
	}
}

// rootJ encodes a part of a request.
func rootJ(hp *heap, x any) J {
	v := reflect.ValueOf(x)
	if !v.IsValid() {
		return nilJ
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nilJ
		}
		if d := descOf[v.Type().Elem()]; d == nil || d.bad != "" {
			if d != nil {
				return []J{"bad", d.name}
			}
			return []J{"alien", v.Type().String()}
		}
		return []J{"at", hp.pointer(v)}
	}
	d := descOf[v.Type()]
	if d == nil {
		return []J{"alien", v.Type().String()}
	}
	if d.bad != "" {
		return []J{"bad", d.name}
	}
	return []J{"at", hp.instance(v, false)}
}

func (s *sworld) oddPart() any {
	r := s.r
	switch r.IntN(8) {
	case 0:
		return nil
	case 1:
		return reflect.Zero(reflect.PointerTo(pick(r, s.u.good()).typ)).Interface()
	case 2:
		return pick(r, []any{"string", 7, []spPerson{{}}, map[string]int{"a": 1}, &[]int{1}, 1.5, new(string)})
	}
	var bads []*typeDesc
	for _, d := range s.u.types {
		if d.bad != "" {
			bads = append(bads, d)
		}
	}
	if len(bads) == 0 {
		return nil
	}
	p := reflect.New(pick(r, bads).typ)
	if r.chance(50) {
		return p.Interface()
	}
	return p.Elem().Interface()
}

func (s *sworld) parts(gen func() any) (xs []any) {
	n := 1
	if s.r.chance(s.sp.many) {
		n = 2 + s.r.IntN(2)
	}
	for range n {
		xs = append(xs, gen())
	}
	if len(xs) > 1 && s.r.chance(20) {
		xs = append(xs, xs[0])
	}
	return
}

func (s *sworld) doRecord(retractToo bool) {
	s.g.begin()
	as := s.parts(s.instance)
	if s.r.chance(s.sp.bad) {
		i := s.r.IntN(len(as))
		as[i] = s.oddPart()
	}
	var rs []any
	if retractToo {
		rs = append(rs, s.retraction())
	}
	s.request(as, rs)
}

// retraction makes an instance that identifies what to retract.
func (s *sworld) retraction() any {
	r := s.r
	if r.chance(s.sp.bad) {
		return s.oddPart()
	}
	d := pick(r, s.u.good())
	p := reflect.New(d.typ)
	g := *s.g
	g.withID, g.reuse, g.depth, g.budget = 60, 85, 1, 2
	g.pool = map[reflect.Type][]reflect.Value{}
	switch {
	case r.chance(30):
		g.fill(d, p.Elem(), 1)
	default:
		// Only some of the identifiers.
		target := s.anyEntity()
		for _, f := range d.fields {
			x := p.Elem().Field(f.index)
			if f.kind == "id" && r.chance(60) {
				x.SetUint(target)
			}
			if f.unique != "" && (f.kind == "scalar" || f.kind == "pscalar") && r.chance(70) {
				var v any
				if r.chance(75) {
					v = s.valueOf(target, f)
				}
				if v != nil && reflect.TypeOf(v) != reflect.TypeOf(g.zero(f.s)) {
					v = nil
				}
				if v == nil {
					if !r.chance(20) {
						continue
					}
					v = g.scalar(f)
				}
				if f.kind == "pscalar" {
					x.Set(reflect.New(x.Type().Elem()))
					x = x.Elem()
				}
				set(x, v)
			}
		}
	}
	s.g.fresh = g.fresh
	if r.chance(40) {
		return p.Elem().Interface()
	}
	return p.Interface()
}

func (s *sworld) anyEntity() uint64 {
	r := s.r
	switch {
	case len(s.g.ids) > 0 && r.chance(90):
		return pick(r, s.g.ids)
	case r.chance(30):
		return uint64(r.IntN(20))
	case r.chance(30):
		return 1<<35 + uint64(r.IntN(1000))
	case r.chance(10):
		return 1<<63 + 5
	}
	if s.lookup != nil {
		return 1 << 40
	}
	if s.hw <= sys.FirstUserID {
		return 5
	}
	// Ids beyond the latest one issued may or may not have been used up by requests that were rejected.
	return uint64(sys.FirstUserID) + uint64(r.IntN(int(s.hw-sys.FirstUserID)+1))
}

// valueOf finds the value an entity has for an attribute, as a go value.
func (s *sworld) valueOf(e uint64, f fieldDesc) any {
	if s.lookup != nil {
		return s.lookup(e, f)
	}
	var a ID
	for _, d := range s.data {
		if d.A == sys.DbIdent && d.V == Value(String(f.ident)) {
			a = d.E
		}
	}
	for _, d := range s.data {
		if d.E == ID(e) && d.A == a {
			switch v := d.V.(type) {
			case String:
				return string(v)
			case Int:
				return int(v)
			case Float:
				return float64(v)
			case Bool:
				return bool(v)
			case Inst:
				return time.Time(v)
			}
		}
	}
	return nil
}

func (s *sworld) doRetract() {
	s.g.begin()
	s.request(nil, s.parts(s.retraction))
}

// request records and retracts, as the public database does.
// shredOnly shreds what may or may not be recorded, but has to be answered.
func (s *sworld) shredOnly(as, rs []any) {
	e := ev{"k": "shred", "t": typesOf(as), "panic": ""}
	s.h.add(e)
	e["panic"] = s.h.guard(func() {
		_, _, err := shredder.NewShredder(s.analyzer).Shred(shredder.Document{Assertions: as, Retractions: rs})
		say(err)
	})
}

func typesOf(xs []any) (names []string) {
	for _, x := range xs {
		names = append(names, fmt.Sprintf("%T", x))
	}
	return
}

func (s *sworld) request(as []any, rs []any) (found []ID, ok bool) {
	for _, a := range as {
		if s.quiet {
			break
		}
		typ := reflect.TypeOf(a)
		if typ == nil {
			continue
		}
		if typ.Kind() == reflect.Pointer {
			typ = typ.Elem()
		}
		if !s.schema(typ) && (descOf[typ] != nil || !s.r.chance(50)) {
			if s.r.chance(30) {
				s.shredOnly(as, rs)
			}
			return
		}
	}
	hp := newHeap(true)
	aj, rj := []J{}, []J{}
	for _, a := range as {
		aj = append(aj, rootJ(hp, a))
	}
	for _, x := range rs {
		rj = append(rj, rootJ(hp, x))
	}
	e := ev{"k": "data", "heap": hp.nodes, "as": aj, "rs": rj, "ok": false, "id": 0, "ids": []J{}, "map": []J{},
		"add": []J{}, "del": []J{}, "n": len(s.data), "panic": "", "err": ""}
	s.h.add(e)
	before, was := s.hw, s.data
	as, rs, kept := lendParts(s.r, as, rs)
	same := s.h.watch()
	var ids []ERef
	var res Response
	shred := false
	e["panic"] = s.h.guard(func() {
		req, refs, err := shredder.NewShredder(s.analyzer).Shred(shredder.Document{Assertions: as, Retractions: rs})
		if err != nil {
			e["err"] = "shred"
			say(err)
			return
		}
		shred = true
		ids = refs
		res = s.db.Write(req)
		say(res.Error)
	})
	e["kept"] = kept()
	e["past"] = same()
	s.h.remember(res.TempIDs, ids)
	ok = e["panic"] == "" && shred && res.Error == nil
	e["ok"] = ok
	if ok {
		e["id"] = idJ(res.ID)
		for _, ref := range ids {
			switch id := ref.(type) {
			case ID:
				found = append(found, id)
			case TempID:
				found = append(found, res.TempIDs[id])
			}
		}
		js := []J{}
		for _, id := range found {
			js = append(js, idJ(id))
		}
		e["ids"] = js
		for _, id := range append([]ID{res.ID}, sortedIDs(res.TempIDs)...) {
			if id > s.hw && id < bigID {
				s.hw = id
			}
			if id >= sys.FirstUserID && id < bigID && id != res.ID {
				s.g.ids = append(s.g.ids, uint64(id))
			}
		}
	} else if er, is := res.Error.(Error); is {
		e["err"] = er.Code
	}
	e["hw"] = int(s.hw)
	s.observeData(e)
	if ok {
		// A request that also retracts may remove what it finds itself asserting again.
		var gone []Datum
		if len(rs) > 0 {
			gone = was
		}
		e["map"] = s.match(hp, aj, found, before, gone)
	}
	if ok && len(found) > 0 && !s.quiet {
		for i, a := range as {
			if s.r.chance(60) || s.sp.huge {
				typ := reflect.TypeOf(a)
				if typ.Kind() == reflect.Pointer {
					typ = typ.Elem()
				}
				s.findAs(0, s.latest, descOf[typ], uint64(found[i]))
			}
		}
	}
	return
}

func (s *sworld) schema(typ reflect.Type) (ok bool) {
	name := "alien"
	if d := descOf[typ]; d != nil {
		name = d.name
	}
	e := ev{"k": "schema", "t": name, "ok": false, "id": 0, "add": []J{}, "del": []J{}, "n": len(s.data), "panic": "", "err": ""}
	s.h.add(e)
	var res Response
	analyzed := false
	e["panic"] = s.h.guard(func() {
		claims, err := schemas.Analyze(typ)
		if err != nil {
			e["err"] = "analyze"
			return
		}
		analyzed = true
		res = s.db.Write(Request{Claims: claims})
	})
	ok = e["panic"] == "" && analyzed && res.Error == nil
	e["ok"] = ok
	if ok {
		e["id"] = idJ(res.ID)
		for _, id := range append([]ID{res.ID}, sortedIDs(res.TempIDs)...) {
			if id > s.hw && id < bigID {
				s.hw = id
			}
		}
	} else if er, is := res.Error.(Error); is {
		e["err"] = er.Code
	}
	e["hw"] = int(s.hw)
	s.observeData(e)
	return
}

func (s *sworld) observeData(e ev) {
	msg := s.h.guard(func() {
		s.latest = s.db.Read()
		after := s.all(s.latest)
		e["add"], e["del"] = delta(s.data, after)
		e["n"] = len(after)
		s.data = after
	})
	if msg != "" && e["panic"] == "" {
		e["panic"] = msg
	}
}

// match finds the entities of the nodes of a heap from the datums recorded, following references from the roots.
// Nodes share a new entity only where identity values make them one, and only nodes with ids or identity values may be
// entities that were there before.
func (s *sworld) match(hp *heap, roots []J, ids []ID, before ID, gone []Datum) []J {
	attrs := map[string]ID{}
	identity := map[ID]bool{}
	for _, d := range s.data {
		if d.A == sys.AttrUnique && d.V == Value(ID(sys.AttrUniqueIdentity)) {
			identity[d.E] = true
		}
		if d.A == sys.DbIdent {
			if name, ok := d.V.(String); ok {
				attrs[string(name)] = d.E
			}
		}
	}
	byEA := map[[2]ID][]Value{}
	for _, ds := range [][]Datum{s.data, gone} {
		for _, d := range ds {
			k := [2]ID{d.E, d.A}
			byEA[k] = append(byEA[k], d.V)
		}
	}
	has := func(e, a ID, v J) bool {
		for _, x := range byEA[[2]ID{e, a}] {
			if fmt.Sprint(valJ(x)) == fmt.Sprint(v) {
				return true
			}
		}
		return false
	}
	canon := func(j J) J {
		xs := j.([]J)[1].([]J)
		return []J{xs[0], xs[1]}
	}
	insts := map[int]instance{}
	for _, in := range hp.insts {
		insts[in.k] = in
	}
	// What is to be assigned, in the order in which it is reached from the roots.
	type edge struct {
		parent string
		attr   ID
		node   string
		fits   func(e ID) bool
	}
	var edges []edge
	name := func(k int) string { return fmt.Sprint(k) }
	fits := func(k int) func(e ID) bool {
		in := insts[k]
		return func(e ID) bool {
			if in.id != 0 && ID(in.id) != e {
				return false
			}
			for i, v := range in.vals {
				f := in.desc.fields[i]
				if f.ie && isZeroJ(v) {
					continue
				}
				if !has(e, attrs[f.ident], canon(v)) {
					return false
				}
			}
			return true
		}
	}
	class := map[string]string{}
	var find func(n string) string
	find = func(n string) string {
		if up, ok := class[n]; ok && up != n {
			class[n] = find(up)
			return class[n]
		}
		return n
	}
	identified := map[string]bool{}
	for _, in := range hp.insts {
		n := name(in.k)
		if in.id != 0 {
			identified[n] = true
		}
		for i, v := range in.vals {
			f := in.desc.fields[i]
			if !identity[attrs[f.ident]] || f.ie && isZeroJ(v) {
				continue
			}
			identified[n] = true
			k := fmt.Sprint("value ", f.ident, " ", canon(v))
			if find(n) != find(k) {
				class[find(n)] = find(k)
			}
		}
	}
	assigned := map[string]ID{}
	used := map[ID]bool{}
	owner := map[ID]string{}
	seen := map[int]bool{}
	var walk func(k int)
	walk = func(k int) {
		if seen[k] {
			return
		}
		seen[k] = true
		in := insts[k]
		for i, f := range in.desc.fields {
			switch f.kind {
			case "slist":
				x := hp.nodes[k-1].([]J)[2].([]J)[i].([]J)
				if x[0] != "at" {
					continue
				}
				elems := hp.nodes[x[1].(int)-1].([]J)[2].([]J)
				for n, el := range elems {
					edges = append(edges, edge{name(k), attrs[f.ident], fmt.Sprintf("%d/%d/%d", k, i+1, n+1), func(e ID) bool {
						return has(e, sys.DbRank, []J{"int", fmt.Sprint(n)}) && has(e, attrs[f.val], canon(el))
					}})
				}
			default:
				for n, c := range in.refs[i] {
					base := fits(c)
					fit := base
					if f.kind == "list" {
						fit = func(e ID) bool { return base(e) && has(e, sys.DbRank, []J{"int", fmt.Sprint(n)}) }
					}
					edges = append(edges, edge{name(k), attrs[f.ident], name(c), fit})
				}
			}
		}
		for i, f := range in.desc.fields {
			if f.kind != "slist" {
				for _, c := range in.refs[i] {
					walk(c)
				}
			}
		}
	}
	for i, root := range roots {
		x := root.([]J)
		if x[0] == "at" && i < len(ids) {
			k := x[1].(int)
			assigned[name(k)] = ids[i]
			used[ids[i]] = true
			owner[ids[i]] = find(name(k))
			walk(k)
		}
	}
	steps := 0
	var solve func(i int) bool
	solve = func(i int) bool {
		steps++
		if steps > 200000 {
			return false
		}
		if i == len(edges) {
			return true
		}
		ed := edges[i]
		p, ok := assigned[ed.parent]
		if !ok {
			return false
		}
		if e, ok := assigned[ed.node]; ok {
			return has(p, ed.attr, []J{"id", idJ(e)}) && solve(i+1)
		}
		var cands []ID
		for _, v := range byEA[[2]ID{p, ed.attr}] {
			if e, ok := v.(ID); ok && ed.fits(e) {
				if e <= before && !identified[ed.node] || e > before && used[e] && owner[e] != find(ed.node) {
					continue
				}
				cands = append(cands, e)
			}
		}
		sort.SliceStable(cands, func(a, b int) bool {
			if used[cands[a]] != used[cands[b]] {
				return used[cands[b]]
			}
			return cands[a] > cands[b]
		})
		for _, e := range cands {
			was, by := used[e], owner[e]
			assigned[ed.node] = e
			used[e], owner[e] = true, find(ed.node)
			if solve(i + 1) {
				return true
			}
			delete(assigned, ed.node)
			used[e], owner[e] = was, by
		}
		return false
	}
	solve(0)
	var names []string
	for n := range assigned {
		names = append(names, n)
	}
	sort.Strings(names)
	m := []J{}
	for _, n := range names {
		m = append(m, []J{n, idJ(assigned[n])})
	}
	return m
}

func isZeroJ(v J) bool {
	x := v.([]J)[1].([]J)
	switch fmt.Sprint(x[0], ":", x[1]) {
	case "str:~empty", "int:0", "float:0", "bool:false", "inst:-62135596800000":
		return true
	}
	return false
}

func (s *sworld) doFind() {
	r := s.r
	k, snap := 0, s.latest
	if len(s.snaps) > 0 && r.chance(s.sp.oldp) {
		kept := pick(r, s.snaps)
		k, snap = kept.k, kept.snap
	}
	s.findAs(k, snap, pick(r, s.u.good()), s.anyEntity())
}

func (s *sworld) findAs(k int, snap Snapshot, d *typeDesc, id uint64) {
	e := ev{"k": "find", "s": k, "t": d.name, "e": idJ(ID(id)), "panic": "", "err": "", "found": false, "heap": []J{}, "root": 0, "re": false}
	s.h.add(e)
	var x any
	found := false
	e["panic"] = s.h.guard(func() {
		var err error
		x, found, err = d.assemble(s.analyzer, snap, ID(id))
		if err != nil {
			e["err"] = "error"
		}
	})
	if e["panic"] != "" || !found {
		return
	}
	e["found"] = true
	hp := newHeap(false)
	e["root"] = hp.pointer(reflect.ValueOf(x))
	e["heap"] = hp.nodes
	if s.r.chance(s.sp.mutate) {
		// What is done to what was found is nothing to the database.
		scribble(reflect.ValueOf(x).Elem(), map[any]bool{})
		at := len(s.h.Events)
		s.findAs(k, snap, d, id)
		s.h.Events[at]["re"] = true
	}
}

// scribble overwrites everything reached from a struct.
func scribble(v reflect.Value, seen map[any]bool) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == TimeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(99, 99)))
			}
			return
		}
		if v.CanAddr() {
			k := [2]any{v.Addr().Pointer(), v.Type()}
			if seen[k] {
				return
			}
			seen[k] = true
		}
		for i := range v.NumField() {
			scribble(v.Field(i), seen)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			scribble(v.Elem(), seen)
		}
	case reflect.Slice:
		for i := range v.Len() {
			scribble(v.Index(i), seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			x := v.MapIndex(k)
			v.SetMapIndex(k, reflect.Value{})
			scribble(x, seen)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribble")
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(-42)
		}
	case reflect.Uint64:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(42.42)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}
