package main

import (
	"fmt"
	"iter"
	"math"
	"slices"
	"sort"
	"time"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// attrInfo is what the harness knows of an attribute, from the datums it has observed.
type attrInfo struct {
	id     ID
	ident  string
	typ    ID
	unique ID
	many   bool
}

type kept struct {
	k        int
	snap     Snapshot
	data     []Datum
	seqs     []oldSeq
	underway *underway
	older    int
}

type oldSeq struct {
	claim Claim
	seq   iter.Seq[Datum]
}

// world is a database under observation.
type world struct {
	r    rng
	h    *history
	p    profile
	db   Database
	read func() Snapshot
	hw   ID
	// The last state observed.
	data  []Datum
	attrs map[ID]attrInfo
	// idents is every ident that was or will be claimed in the history
	idents []string
	snaps  []*kept
	vals   map[ID][]VRef
	issued []ID
	nsnap  int
	ntemp  int
	// what the temp ids of accepted requests came to be, if it matters
	temps map[string]ID
}

var userIdents = []string{"e/alice", "e/bob", "e/carol", "e/dave"}

// nearIdents are nearly the system's.
var nearIdents = []string{"Sys/db/ident", "SYS/x", "sys", "sysx", "system/clock", " sys/x", "sys.x/y", "/sys/x", "sys\\x"}
var badIdents = []string{"e/nobody", "sys/nothing", "sys/db/idents"}
var sysIdentNames []string

func init() {
	for ident := range sys.Idents {
		sysIdentNames = append(sysIdentNames, string(ident))
	}
	for _, s := range []string{"sys/attr/unique/identity", "sys/attr/unique/value", "sys/attr/ref/type/dependent", "sys/attr/ref/type"} {
		found := false
		for _, t := range sysIdentNames {
			found = found || s == t
		}
		if !found {
			sysIdentNames = append(sysIdentNames, s)
		}
	}
	sort.Strings(sysIdentNames)
}

type attrTemplate struct {
	ident  string
	typ    ID
	unique ID
	card   ID
}

func (t attrTemplate) attr() Attr {
	return Attr{Ident: Ident(t.ident), Type: t.typ, Unique: t.unique, Cardinality: t.card}
}

var templates = []attrTemplate{
	{"s/id", sys.AttrTypeString, sys.AttrUniqueIdentity, 0},
	{"s/val", sys.AttrTypeString, sys.AttrUniqueValue, 0},
	{"s/one", sys.AttrTypeString, 0, 0},
	{"s/many", sys.AttrTypeString, 0, sys.AttrCardinalityMany},
	{"i/id", sys.AttrTypeInt, sys.AttrUniqueIdentity, sys.AttrCardinalityOne},
	{"i/val", sys.AttrTypeInt, sys.AttrUniqueValue, sys.AttrCardinalityOne},
	{"i/one", sys.AttrTypeInt, 0, sys.AttrCardinalityOne},
	{"i/many", sys.AttrTypeInt, 0, sys.AttrCardinalityMany},
	{"f/id", sys.AttrTypeFloat, sys.AttrUniqueIdentity, 0},
	{"f/one", sys.AttrTypeFloat, 0, 0},
	{"f/many", sys.AttrTypeFloat, 0, sys.AttrCardinalityMany},
	{"f/val", sys.AttrTypeFloat, sys.AttrUniqueValue, sys.AttrCardinalityMany},
	{"b/one", sys.AttrTypeBool, 0, 0},
	{"b/many", sys.AttrTypeBool, 0, sys.AttrCardinalityMany},
	{"b/id", sys.AttrTypeBool, sys.AttrUniqueIdentity, 0},
	{"t/id", sys.AttrTypeInst, sys.AttrUniqueIdentity, 0},
	{"t/one", sys.AttrTypeInst, 0, 0},
	{"t/many", sys.AttrTypeInst, 0, sys.AttrCardinalityMany},
	{"t/val", sys.AttrTypeInst, sys.AttrUniqueValue, 0},
	{"r/one", sys.AttrTypeRef, 0, 0},
	{"r/many", sys.AttrTypeRef, 0, sys.AttrCardinalityMany},
	{"r/id", sys.AttrTypeRef, sys.AttrUniqueIdentity, 0},
	{"r/val", sys.AttrTypeRef, sys.AttrUniqueValue, sys.AttrCardinalityMany},
	{"s/idm", sys.AttrTypeString, sys.AttrUniqueIdentity, sys.AttrCardinalityMany},
	{"i/idm", sys.AttrTypeInt, sys.AttrUniqueIdentity, sys.AttrCardinalityMany},
	{"r/idm", sys.AttrTypeRef, sys.AttrUniqueIdentity, sys.AttrCardinalityMany},
}

func newWorld(r rng, h *history, p profile) *world {
	w := &world{r: r, h: h, p: p, hw: sys.FirstUserID - 1, attrs: map[ID]attrInfo{}, vals: map[ID][]VRef{}}
	for _, t := range templates {
		w.idents = append(w.idents, t.ident)
	}
	w.idents = append(w.idents, userIdents...)
	w.idents = append(w.idents, nearIdents...)
	w.idents = append(w.idents, "x/a", "x/b", "x/c", "x/d")
	for _, tok := range strTokens {
		if tok != "~empty" {
			w.idents = append(w.idents, strVal(tok))
		}
	}
	// A few values of each type, so that requests meet.
	toks := strTokens
	if r.chance(25) {
		toks = alikeTokens
	}
	w.vals[sys.AttrTypeString] = w.pool(5, func() VRef { return String(strVal(pick(r, toks))) })
	w.vals[sys.AttrTypeInt] = w.pool(5, func() VRef { return Int(pick(r, intVals)) })
	w.vals[sys.AttrTypeFloat] = w.pool(6, func() VRef { return Float(pick(r, floatVals).val) })
	w.vals[sys.AttrTypeInst] = w.pool(4, func() VRef { return Inst(time.UnixMilli(pick(r, instVals)).UTC()) })
	w.vals[sys.AttrTypeBool] = []VRef{Bool(false), Bool(true)}
	return w
}

func (w *world) pool(n int, gen func() VRef) (vals []VRef) {
	for range n {
		vals = append(vals, gen())
	}
	return
}

// open makes the database and observes its first state.
func (w *world) open() {
	degree := pick(w.r, []int{2, 2, 3, 4, 16, 64})
	msg := w.h.guard(func() {
		w.db = database.NewIndexDatabase(degree, w.r.IntN(8), w.r.IntN(8))
		w.read = w.db.Read
	})
	w.start(msg)
}

func (w *world) start(msg string) {
	e := ev{"k": "init", "panic": msg, "data": []J{}, "n": 0, "ids": []J{}, "aids": []J{}, "hw": int(w.hw)}
	if msg == "" {
		msg = w.h.guard(func() {
			s := w.read()
			data := w.all(s)
			e["data"] = datumsJ(data)
			e["n"] = len(data)
			e["ids"], e["aids"] = w.names(s)
			w.data = data
		})
		e["panic"] = msg
	}
	w.h.add(e)
	w.learn()
}

func datumsJ(data []Datum) J {
	js := make([]J, 0, len(data))
	for _, d := range data {
		js = append(js, datumJ(d))
	}
	return js
}

func (w *world) all(s Snapshot) (data []Datum) {
	for d := range s.Select(Claim{}) {
		data = append(data, d)
		if len(data) > 100000 {
			break
		}
	}
	return
}

// names observes the resolution of every ident and attribute id of the history.
func (w *world) names(s Snapshot) (ids []J, aids []J) {
	ids, aids = []J{}, []J{}
	for _, list := range [][]string{sysIdentNames, w.idents, badIdents, {""}} {
		for _, name := range list {
			id := s.ResolveIdent(Ident(name))
			if id != 0 {
				ids = append(ids, []J{strTok(name), idJ(id)})
			}
		}
	}
	look := func(id ID) {
		name := s.ResolveAttrIdent(id)
		if name != "" {
			aids = append(aids, []J{idJ(id), strTok(string(name))})
		}
	}
	for id := ID(0); id < 24; id++ {
		look(id)
	}
	for id := sys.FirstUserID; id <= w.hw+2; id++ {
		look(id)
	}
	return
}

func eavKey(d Datum) string { return fmt.Sprint(idJ(d.E), idJ(d.A), valJ(d.V)) }

// delta encodes the change from one sequence of datums to another, as multisets.
func delta(before, after []Datum) (add, del []J) {
	add, del = []J{}, []J{}
	counts := map[Datum]int{}
	key := sameAs
	for _, d := range before {
		counts[key(d)]++
	}
	for _, d := range after {
		k := key(d)
		if counts[k] > 0 {
			counts[k]--
		} else {
			add = append(add, datumJ(d))
		}
	}
	for _, d := range before {
		k := key(d)
		if counts[k] > 0 {
			counts[k]--
			del = append(del, datumJ(d))
		}
	}
	return
}

func (w *world) learn() {
	w.attrs = map[ID]attrInfo{}
	for _, d := range w.data {
		if d.A == sys.AttrType {
			if typ, ok := d.V.(ID); ok {
				w.attrs[d.E] = attrInfo{id: d.E, typ: typ}
			}
		}
	}
	for _, d := range w.data {
		a, ok := w.attrs[d.E]
		if !ok {
			continue
		}
		switch d.A {
		case sys.AttrUnique:
			a.unique, _ = d.V.(ID)
		case sys.AttrCardinality:
			a.many = d.V == Value(sys.AttrCardinalityMany)
		case sys.DbIdent:
			s, _ := d.V.(String)
			a.ident = string(s)
		}
		w.attrs[d.E] = a
	}
}

// write submits a request and observes everything the specification speaks of.
// asAttrs is what the request declares, if that is all it does and database.Declare can say the same, and the temp id of each.
func asAttrs(req Request) (attrs []Attr, names []TempID) {
	if len(req.Retractions) > 0 {
		return nil, nil
	}
	at := map[TempID]int{}
	for _, c := range req.Claims {
		t, is := c.E.(TempID)
		if !is || c.Retract {
			return nil, nil
		}
		i, known := at[t]
		if !known {
			i = len(attrs)
			at[t] = i
			attrs, names = append(attrs, Attr{}), append(names, t)
		}
		a := &attrs[i]
		a1, is := c.A.(ID)
		if !is {
			return nil, nil
		}
		id, _ := c.V.(ID)
		switch {
		case a1 == sys.DbIdent && a.Ident == "":
			s, _ := c.V.(String)
			a.Ident = Ident(s)
		case a1 == sys.AttrType && a.Type == 0:
			a.Type = id
		case a1 == sys.AttrUnique && a.Unique == 0:
			a.Unique = id
		case a1 == sys.AttrCardinality && a.Cardinality == 0:
			a.Cardinality = id
		default:
			return nil, nil
		}
		if a1 != sys.DbIdent && id == 0 {
			return nil, nil
		}
	}
	for _, a := range attrs {
		if a.Ident == "" || a.Type == 0 {
			return nil, nil
		}
	}
	return
}

// overheard is a database that tells what was said to it.
type overheard struct {
	Database
	req Request
	res Response
}

func (o *overheard) Write(req Request) Response {
	o.req = req
	o.res = o.Database.Write(req)
	return o.res
}

// declareAttrs has database.Declare do the writing. The response has the temp ids by the names given.
func declareAttrs(db Database, attrs []Attr, names []TempID) (res Response, kept func() bool) {
	lent := append(append(make([]Attr, 0, len(attrs)+4), attrs...), Attr{Ident: "x/beyond"})
	o := &overheard{Database: db}
	err := database.Declare(o, lent[:len(attrs)]...)
	res = o.res
	res.Error = err
	if err != nil && res.Snapshot == nil {
		res.Snapshot = db.Read()
	}
	kept = func() bool {
		return slices.Equal(lent[:len(attrs)], attrs) && lent[len(attrs)].Ident == "x/beyond"
	}
	if res.TempIDs == nil {
		return
	}
	ids := map[TempID]ID{}
	used := map[TempID]bool{}
	for i, a := range attrs {
		for _, c := range o.req.Claims {
			t, is := c.E.(TempID)
			if is && !used[t] && c.V == VRef(String(a.Ident)) {
				used[t] = true
				ids[names[i]] = o.res.TempIDs[t]
				break
			}
		}
	}
	res.TempIDs = ids
	return
}

func (w *world) write(req Request) (ok bool) {
	e := ev{"k": "w", "req": reqJ(req), "panic": "", "ok": false, "id": 0, "temps": []J{}, "err": "",
		"add": []J{}, "del": []J{}, "n": len(w.data), "rdiff": []J{}, "ids": []J{}, "aids": []J{}, "snil": false}
	attrs, names := asAttrs(req)
	req, kept := lend(w.r, req)
	same := w.h.watch()
	var res Response
	msg := w.h.guard(func() {
		if len(attrs) > 0 && w.r.chance(60) {
			res, kept = declareAttrs(w.db, attrs, names)
		} else {
			res = w.db.Write(req)
		}
		say(res.Error)
	})
	e["panic"] = msg
	e["kept"] = kept()
	e["past"] = same()
	if msg != "" {
		w.h.add(e)
		w.lookAgain(e)
		return
	}
	ok = res.Error == nil
	e["ok"] = ok
	if ok && w.temps != nil {
		w.bindTemps(res)
	}
	if !ok {
		if er, is := res.Error.(Error); is {
			e["err"] = er.Code
		} else {
			e["err"] = "?"
		}
	}
	e["id"] = idJ(res.ID)
	temps := []J{}
	ts := make([]string, 0, len(res.TempIDs))
	for t := range res.TempIDs {
		ts = append(ts, string(t))
	}
	sort.Strings(ts)
	for _, t := range ts {
		temps = append(temps, []J{t, idJ(res.TempIDs[TempID(t)])})
	}
	e["temps"] = temps
	// From here on they are the caller's to change.
	spoil(req)
	for t := range res.TempIDs {
		defer func() { res.TempIDs[t] = 3 }()
	}
	w.h.remember(res.TempIDs)
	for _, id := range append([]ID{res.ID}, sortedIDs(res.TempIDs)...) {
		if id > w.hw && id < bigID {
			w.hw = id
		}
		if id >= sys.FirstUserID && id < bigID {
			w.issued = append(w.issued, id)
		}
	}
	w.h.add(e)
	if res.Snapshot == nil {
		e["snil"] = true
	}
	w.lookAgain(e)
	if res.Snapshot != nil {
		msg = w.h.guard(func() { e["rdiff"] = w.compare(res.Snapshot, w.read()) })
		if msg != "" {
			e["panic"] = msg
		}
	}
	if res.Snapshot != nil && w.r.chance(w.p.keep) {
		w.keep(res.Snapshot, w.data, "resp")
	}
	return
}

func sortedIDs(m map[TempID]ID) (ids []ID) {
	for _, id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return
}

// lookAgain observes the state of the database after an event.
func (w *world) lookAgain(e ev) {
	msg := w.h.guard(func() {
		s := w.read()
		after := w.all(s)
		e["add"], e["del"] = delta(w.data, after)
		e["n"] = len(after)
		e["ids"], e["aids"] = w.names(s)
		w.data = after
	})
	if msg != "" && e["panic"] == "" {
		e["panic"] = msg
	}
	w.learn()
}

// compare lists the differences of two snapshots that should be equal.
func (w *world) compare(a, b Snapshot) (diffs []J) {
	diffs = []J{}
	add, del := delta(w.all(a), w.all(b))
	if len(add)+len(del) > 0 {
		diffs = append(diffs, "datums")
	}
	ai, aa := w.names(a)
	bi, ba := w.names(b)
	if fmt.Sprint(ai) != fmt.Sprint(bi) {
		diffs = append(diffs, "idents")
	}
	if fmt.Sprint(aa) != fmt.Sprint(ba) {
		diffs = append(diffs, "attrs")
	}
	return
}

func reqJ(req Request) J {
	claims := []J{}
	for _, c := range req.Claims {
		claims = append(claims, []J{refJ(c.E), refJ(c.A), refJ(c.V), c.Retract})
	}
	rets := []J{}
	for _, r := range req.Retractions {
		var js []string
		m := map[string]J{}
		for ref := range r.Constraints {
			j := refJ(ref)
			s := fmt.Sprint(j)
			if _, ok := m[s]; !ok {
				js = append(js, s)
			}
			m[s] = j
		}
		sort.Strings(js)
		list := []J{}
		for _, s := range js {
			list = append(list, m[s])
		}
		rets = append(rets, list)
	}
	return ev{"claims": claims, "rets": rets}
}

// keep retains a snapshot that shows the given datums.
func (w *world) keep(s Snapshot, data []Datum, how string) {
	w.nsnap++
	k := &kept{k: w.nsnap, snap: s, data: data}
	e := ev{"k": "snap", "s": k.k, "how": how}
	w.h.add(e)
	if w.r.chance(30) {
		for range 2 {
			c := w.queryClaim(data)
			msg := w.h.guard(func() { k.seqs = append(k.seqs, oldSeq{c, s.Select(c)}) })
			if msg != "" {
				break
			}
		}
	}
	if w.r.chance(35) {
		// A selection that is iterated while writes go on.
		u := &underway{claim: w.queryClaim(data)}
		msg := w.h.guard(func() {
			u.next, u.stop = iter.Pull(s.Select(u.claim))
			u.pull(w.r.IntN(4))
		})
		if msg == "" {
			k.underway = u
			w.h.stops = append(w.h.stops, u.stop)
		}
	}
	w.snaps = append(w.snaps, k)
	if len(w.snaps) > 8 {
		i := w.r.IntN(len(w.snaps) - 1)
		gone := w.snaps[i]
		gone.leave()
		w.snaps = append(w.snaps[:i:i], w.snaps[i+1:]...)
		w.h.add(ev{"k": "drop", "s": gone.k})
	}
}

func (w *world) takeSnap() {
	var s Snapshot
	var data []Datum
	if msg := w.h.guard(func() { s = w.read(); data = w.all(s) }); msg != "" {
		w.h.add(ev{"k": "obs", "s": 0, "panic": msg, "add": []J{}, "del": []J{}, "n": 0, "ids": []J{}, "aids": []J{}})
		return
	}
	w.keep(s, data, "read")
}

// underway is a selection that is iterated step by step.
type underway struct {
	claim Claim
	next  func() (Datum, bool)
	stop  func()
	got   []Datum
	done  bool
}

// leave breaks off what is under way.
func (k *kept) leave() {
	if k.underway != nil {
		k.underway.stop()
		k.underway = nil
	}
}

func (u *underway) pull(n int) {
	for ; n > 0 && !u.done && len(u.got) < 100000; n-- {
		d, ok := u.next()
		if ok {
			u.got = append(u.got, d)
		} else {
			u.done = true
		}
	}
}

// goOn continues the selection of a kept snapshot that is under way.
func (w *world) goOn(k *kept) {
	u := k.underway
	n := w.r.IntN(8)
	if w.r.chance(40) {
		n = 200000
	}
	c := u.claim
	e := ev{"k": "q", "s": k.k, "c": []J{refJ(c.E), refJ(c.A), refJ(c.V)}, "again": true, "prefix": true}
	msg := w.h.guard(func() {
		u.pull(n)
		e["count"] = k.snap.Count(c)
		e["has"] = k.snap.Has(c)
	})
	if msg == "" && !u.done {
		return
	}
	e["panic"], e["seq"] = msg, datumsJ(u.got)
	w.h.add(e)
	k.underway = nil
}

// observe looks at a kept snapshot again.
func (w *world) observe(k *kept) {
	e := ev{"k": "obs", "s": k.k, "panic": "", "add": []J{}, "del": []J{}, "n": 0, "ids": []J{}, "aids": []J{}, "views": []J{}}
	msg := w.h.guard(func() {
		data := w.all(k.snap)
		if w.r.chance(70) {
			e["views"] = w.views(k.snap, k.data)
		}
		e["add"], e["del"] = delta(k.data, data)
		e["n"] = len(data)
		e["ids"], e["aids"] = w.names(k.snap)
	})
	e["panic"] = msg
	w.h.add(e)
	if k.underway != nil {
		w.goOn(k)
	}
	if len(k.seqs) > 0 && w.r.chance(50) {
		// A selection made when the snapshot was taken, iterated now.
		q := pick(w.r, k.seqs)
		w.ask(k.k, k.snap, q.claim, q.seq)
	}
}

// views says which of the ways to select everything there is in a snapshot differ from each other.
func (w *world) views(s Snapshot, data []Datum) (differ []J) {
	differ = []J{}
	byA := map[ID]map[Datum]int{}
	byAV := map[string]int{}
	claims := map[string]Claim{}
	for _, d := range data {
		if byA[d.A] == nil {
			byA[d.A] = map[Datum]int{}
		}
		k := sameAs(d)
		byA[d.A][k]++
		if v, ok := d.V.(VRef); ok {
			av := fmt.Sprint(idJ(d.A), valJ(d.V))
			byAV[av]++
			claims[av] = Claim{A: d.A, V: v}
		}
	}
	for a, want := range byA {
		n := 0
		for d := range s.Select(Claim{A: a}) {
			n++
			if want[sameAs(d)] != 1 {
				n = -1000000
			}
		}
		if n != len(want) || s.Count(Claim{A: a}) != n {
			differ = append(differ, []J{"by attribute", idJ(a)})
		}
	}
	avs := make([]string, 0, len(byAV))
	for av := range byAV {
		avs = append(avs, av)
	}
	sort.Strings(avs)
	if len(avs) > 300 {
		avs = avs[len(avs)-300:]
	}
	for _, av := range avs {
		if n := s.Count(claims[av]); n != byAV[av] {
			differ = append(differ, []J{"by value", av, n})
		}
	}
	if len(differ) > 4 {
		differ = differ[:4]
	}
	return
}

func (w *world) query(k *kept, c Claim) {
	if k == nil {
		var s Snapshot
		if msg := w.h.guard(func() { s = w.read() }); msg != "" {
			w.h.add(ev{"k": "q", "s": 0, "c": []J{refJ(c.E), refJ(c.A), refJ(c.V)}, "panic": msg,
				"seq": []J{}, "count": 0, "has": false, "again": true, "prefix": true})
			return
		}
		w.ask(0, s, c, nil)
		return
	}
	w.ask(k.k, k.snap, c, nil)
}

// ask submits a query to a snapshot in all the ways there are.
func (w *world) ask(k int, s Snapshot, c Claim, seq iter.Seq[Datum]) {
	e := ev{"k": "q", "s": k, "c": []J{refJ(c.E), refJ(c.A), refJ(c.V)}, "panic": "",
		"seq": []J{}, "count": 0, "has": false, "again": true, "prefix": true}
	msg := w.h.guard(func() {
		if w.r.chance(30) {
			c.Retract = true // of no consequence to queries
		}
		if w.r.chance(20) {
			e["has"] = s.Has(c)
		}
		if seq == nil {
			seq = s.Select(c)
		}
		var first []Datum
		if w.r.chance(30) {
			stop := w.r.IntN(3)
			for d := range seq {
				first = append(first, d)
				if len(first) > stop {
					break
				}
			}
		}
		var got []Datum
		for d := range seq {
			got = append(got, d)
			if len(got) > 100000 {
				break
			}
		}
		e["seq"] = datumsJ(got)
		e["count"] = s.Count(c)
		e["has"] = s.Has(c)
		for i, d := range first {
			if i >= len(got) || fmt.Sprint(datumJ(d)) != fmt.Sprint(datumJ(got[i])) {
				e["prefix"] = false
			}
		}
		if w.r.chance(40) {
			// The same iteration interleaved with another of the same sequence, one broken off.
			next, stop := iter.Pull(seq)
			next2, stop2 := iter.Pull(seq)
			for i := 0; ; i++ {
				d, ok := next()
				if i < 2 {
					d2, ok2 := next2()
					if ok != ok2 || ok && fmt.Sprint(datumJ(d)) != fmt.Sprint(datumJ(d2)) {
						e["again"] = false
					}
				} else if i == 2 {
					stop2()
				}
				if !ok {
					if i != len(got) {
						e["again"] = false
					}
					break
				}
				if i >= len(got) || fmt.Sprint(datumJ(d)) != fmt.Sprint(datumJ(got[i])) {
					e["again"] = false
					break
				}
			}
			stop()
			stop2()
		}
	})
	e["panic"] = msg
	w.h.add(e)
}

// ---------------------------------------------------------------------------------------------
// Choices

func (w *world) attrList() (attrs []attrInfo) {
	for _, a := range w.attrs {
		attrs = append(attrs, a)
	}
	sort.Slice(attrs, func(i, j int) bool { return attrs[i].id < attrs[j].id })
	return
}

func (w *world) userAttrs(pred func(attrInfo) bool) (attrs []attrInfo) {
	for _, a := range w.attrList() {
		if a.id >= sys.FirstUserID && (pred == nil || pred(a)) {
			attrs = append(attrs, a)
		}
	}
	return
}

// entities lists the user entities that are not attributes, with datums or formerly issued.
func (w *world) entities() (ids []ID) {
	seen := map[ID]bool{}
	for _, d := range w.data {
		if _, ok := w.attrs[d.E]; !ok && d.E >= sys.FirstUserID && !seen[d.E] {
			seen[d.E] = true
			ids = append(ids, d.E)
		}
	}
	return
}

func (w *world) entity() ID {
	es := w.entities()
	if len(es) == 0 || w.r.chance(10) && len(w.issued) > 0 {
		if len(w.issued) == 0 {
			return w.hw
		}
		id := pick(w.r, w.issued)
		if _, ok := w.attrs[id]; ok {
			return w.hw
		}
		return id
	}
	return pick(w.r, es)
}

func (w *world) datumsOf(e ID) (data []Datum) {
	for _, d := range w.data {
		if d.E == e {
			data = append(data, d)
		}
	}
	return
}

// names lists the references that denote the entity.
func (w *world) refs(e ID) (refs []IDRef) {
	for _, d := range w.datumsOf(e) {
		if d.A == sys.DbIdent {
			if s, ok := d.V.(String); ok {
				refs = append(refs, Ident(s))
				refs = append(refs, LookupRef{A: w.plainA(w.attrs[sys.DbIdent]), V: s})
			}
		} else if a := w.attrs[d.A]; a.unique != 0 {
			refs = append(refs, LookupRef{A: w.plainA(a), V: w.vary(d.V.(VRef)).(Value)})
		}
	}
	return
}

func (w *world) plainA(a attrInfo) IDRef {
	if a.ident != "" {
		switch n := w.r.IntN(100); {
		case n < 45:
			return Ident(a.ident)
		case n < 60:
			by := pick(w.r, []IDRef{sys.DbIdent, Ident("sys/db/ident"), LookupRef{A: sys.DbIdent, V: String("sys/db/ident")}})
			return LookupRef{A: by, V: String(a.ident)}
		}
	}
	return a.id
}

// ref chooses a reference to the entity.
func (w *world) ref(e ID) IDRef {
	refs := w.refs(e)
	if len(refs) == 0 || w.r.chance(50) {
		return e
	}
	return pick(w.r, refs)
}

func (w *world) eref(e ID) ERef { return w.ref(e).(ERef) }

func (w *world) aref(a attrInfo) IDRef {
	switch n := w.r.IntN(10); {
	case n < 4 && a.ident != "":
		return Ident(a.ident)
	case n < 5 && a.ident != "":
		return LookupRef{A: w.plainA(w.attrs[sys.DbIdent]), V: String(a.ident)}
	}
	return a.id
}

// vary chooses a representation of the value.
func (w *world) vary(v VRef) VRef {
	switch x := v.(type) {
	case Inst:
		t := time.Time(x)
		switch w.r.IntN(3) {
		case 0:
			return Inst(t.In(pick(w.r, zones)))
		case 1:
			return Inst(t.Add(time.Duration(w.r.IntN(999999))))
		}
	case Float:
		if x == 0 && w.r.chance(50) {
			return Float(math.Copysign(0, -1))
		}
	}
	return v
}

// val chooses a value of the type. References are to entities of the state.
func (w *world) val(typ ID) VRef {
	if typ == sys.AttrTypeRef {
		e := w.entity()
		if w.r.chance(5) {
			e = pick(w.r, []ID{sys.DbIdent, sys.AttrTypeString, sys.Tx})
		}
		return e
	}
	if w.r.chance(12) {
		switch typ {
		case sys.AttrTypeString:
			return String(strVal(pick(w.r, strTokens)))
		case sys.AttrTypeInt:
			return Int(pick(w.r, intVals))
		case sys.AttrTypeFloat:
			return w.vary(Float(pick(w.r, floatVals).val))
		case sys.AttrTypeInst:
			return w.vary(Inst(time.UnixMilli(pick(w.r, instVals)).UTC()))
		}
	}
	vs := w.vals[typ]
	if len(vs) == 0 {
		return String("a")
	}
	return w.vary(pick(w.r, vs))
}

// valRef is val, with references in any form.
func (w *world) valRef(typ ID) VRef {
	if typ == sys.AttrTypeRef {
		v := w.val(typ).(ID)
		switch x := w.ref(v).(type) {
		case ID:
			return x
		case Ident:
			return x
		case LookupRef:
			return x
		}
	}
	return w.val(typ)
}

func (w *world) wrongVal(typ ID) VRef {
	for {
		t := pick(w.r, []ID{sys.AttrTypeString, sys.AttrTypeInt, sys.AttrTypeFloat, sys.AttrTypeBool, sys.AttrTypeInst, sys.AttrTypeRef})
		if t != typ {
			return w.val(t)
		}
	}
}

func (w *world) temp() TempID {
	w.ntemp++
	return TempID(fmt.Sprintf("t%d", w.ntemp%7))
}

// badRef chooses a reference that does not resolve.
func (w *world) badRef() any {
	switch w.r.IntN(12) {
	case 0:
		return ID(0)
	case 1:
		// In the presence of other processes nobody knows what will be the latest id.
		if w.h.Mode == "datum" && w.r.chance(60) {
			return w.hw + 1 + ID(w.r.IntN(4))
		}
		return w.hw + 1000
	case 2:
		return ID(math.MaxUint64)
	case 3:
		return Ident(pick(w.r, badIdents))
	case 4:
		return LookupRef{A: sys.DbIdent, V: String("e/nobody")}
	case 5:
		return LookupRef{A: sys.DbIdent, V: Int(3)}
	case 6:
		return LookupRef{A: sys.DbIdent}
	case 7:
		return LookupRef{V: String("a")}
	case 8:
		as := w.userAttrs(func(a attrInfo) bool { return a.unique == 0 })
		if len(as) > 0 {
			a := pick(w.r, as)
			for _, d := range w.data {
				if d.A == a.id {
					return LookupRef{A: w.plainA(a), V: d.V}
				}
			}
			return LookupRef{A: a.id, V: w.val(a.typ).(Value)}
		}
	case 9:
		as := w.userAttrs(func(a attrInfo) bool { return a.unique != 0 })
		if len(as) > 0 {
			a := pick(w.r, as)
			return LookupRef{A: w.plainA(a), V: w.wrongVal(a.typ).(Value)}
		}
	case 10:
		return LookupRef{A: LookupRef{A: sys.DbIdent, V: String("e/nobody")}, V: String("a")}
	case 11:
		as := w.userAttrs(func(a attrInfo) bool { return a.unique != 0 && a.typ != sys.AttrTypeRef && a.typ != sys.AttrTypeBool })
		if len(as) > 0 {
			a := pick(w.r, as)
			for range 5 {
				v := w.val(a.typ).(Value)
				if w.holder(a.id, v) == 0 {
					return LookupRef{A: w.plainA(a), V: v}
				}
			}
		}
	}
	return Ident("e/nobody")
}

func (w *world) holder(a ID, v Value) ID {
	key := fmt.Sprint(valJ(v))
	for _, d := range w.data {
		if d.A == a && fmt.Sprint(valJ(d.V)) == key {
			return d.E
		}
	}
	return 0
}

// queryClaim chooses a query about the datums.
func (w *world) queryClaim(data []Datum) (c Claim) {
	var d Datum
	if len(data) > 0 && w.r.chance(85) {
		d = pick(w.r, data)
		if d.E < sys.FirstUserID && w.r.chance(80) {
			d = pick(w.r, data)
		}
	} else {
		as := w.attrList()
		if len(as) == 0 {
			return
		}
		a := pick(w.r, as)
		d = Datum{E: w.entity(), A: a.id, V: w.val(a.typ).(Value)}
	}
	mask := w.r.IntN(8)
	if mask&1 != 0 {
		c.E = w.eref(d.E)
	}
	if mask&2 != 0 {
		if w.r.chance(w.p.notAttr) {
			c.A = w.entity()
		} else if a, ok := w.attrs[d.A]; ok {
			c.A = w.aref(a)
		} else {
			c.A = d.A
		}
	}
	if mask&4 != 0 {
		switch v := d.V.(type) {
		case ID:
			switch x := w.ref(v).(type) {
			case ID:
				c.V = x
			case Ident:
				c.V = x
			case LookupRef:
				c.V = x
			}
		default:
			c.V = w.vary(v.(VRef))
		}
		switch {
		case w.r.chance(12):
			c.V = w.val(w.attrs[d.A].typ)
		case w.r.chance(w.p.odd):
			c.V = w.wrongVal(w.attrs[d.A].typ)
		}
	}
	if w.r.chance(w.p.odd) {
		// A reference that does not resolve, in one of the positions.
		bad := w.badRef()
		if id, ok := bad.(ID); ok && id == 0 {
			bad = ID(math.MaxUint64)
		}
		switch w.r.IntN(4) {
		case 0:
			c.E = bad.(ERef)
		case 1:
			c.A = bad.(IDRef)
		case 2:
			c.V = bad.(VRef)
		case 3:
			switch w.r.IntN(4) {
			case 0:
				c.E = TempID("t1")
			case 1:
				c.E = TxnID{}
			case 2:
				c.V = TempID("t1")
			case 3:
				switch w.r.IntN(3) {
				case 0:
					c.E = alien("e")
				case 1:
					c.A = alien("a")
				case 2:
					c.V = alien("v")
				}
			}
		}
	}
	return
}
