package main

import (
	"fmt"
	"slices"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// profile weighs what a history is made of.
type profile struct {
	name string
	// scenario weights, by the names in scenarios
	mix map[string]int
	// events per history, writes per 100 events; the percentages of responses kept as snapshots,
	// of odd queries and of queries by things that are not attributes
	events, writes, keep, odd, notAttr int
	// attributes declared at first
	attrs int
	// the idents of attributes that must be among them
	must []string
}

type scenario func(w *world) Request

var scenarios = map[string]scenario{
	"plain":      plain,
	"many":       manyClaims,
	"replace":    replace,
	"reassert":   reassert,
	"retract":    retractClaims,
	"cardone":    cardOneConflict,
	"identity":   identity,
	"idmix":      identityMix,
	"value":      valueUnique,
	"temps":      tempRefs,
	"declare":    declare,
	"badattr":    badDeclare,
	"redeclare":  redeclare,
	"attrchange": attrChange,
	"sys":        sysClaims,
	"sysident":   sysIdent,
	"idents":     identClaims,
	"badref":     badRefs,
	"badval":     badVals,
	"entity":     retractEntity,
	"badret":     badRetraction,
	"txn":        txnClaims,
	"late":       lateFault,
	"refs":       refForms,
	"malformed":  malformed,
	"aftermath":  aftermath,
	"bulk":       bulk,
	"crowd":      crowd,
	"throng":     throng,
	"chain":      chain,
	"names":      names,
	"empty":      func(w *world) Request { return Request{} },
}

var scenarioNames = []string{"plain", "many", "replace", "reassert", "retract", "cardone", "identity", "idmix",
	"value", "temps", "declare", "badattr", "redeclare", "attrchange", "sys", "sysident", "idents", "badref", "badval",
	"entity", "badret", "txn", "late", "refs", "malformed", "empty", "aftermath", "bulk", "crowd", "throng", "chain", "names"}

// runDatum makes one history of a database of datums.
func runDatum(h *history, r rng, p profile) {
	w := newWorld(r, h, p)
	w.open()
	w.declareSome()
	n := p.events/2 + r.IntN(p.events)
	weights := make([]int, len(scenarioNames))
	for i, name := range scenarioNames {
		weights[i] = p.mix[name]
	}
	for range n {
		if h.hung {
			return
		}
		switch {
		case r.chance(p.writes):
			req := scenarios[scenarioNames[r.weighted(weights)]](w)
			if r.chance(3) {
				more := scenarios[scenarioNames[r.weighted(weights)]](w)
				req.Claims = append(req.Claims, more.Claims...)
				req.Retractions = append(req.Retractions, more.Retractions...)
			}
			w.write(req)
		case r.chance(12):
			w.takeSnap()
		case len(w.snaps) > 0 && r.chance(30):
			w.observe(pick(r, w.snaps))
		case len(w.snaps) > 0 && r.chance(30):
			k := pick(r, w.snaps)
			w.query(k, w.queryClaim(k.data))
		default:
			w.query(nil, w.queryClaim(w.data))
		}
	}
	for _, k := range w.snaps {
		w.observe(k)
		k.leave()
	}
}

func (w *world) declareSome() {
	perm := w.r.Perm(len(templates))
	chosen := map[string]bool{}
	var ts []attrTemplate
	for _, name := range w.p.must {
		for _, t := range templates {
			if t.ident == name && !chosen[name] {
				chosen[name] = true
				ts = append(ts, t)
			}
		}
	}
	for _, i := range perm {
		if len(ts) >= w.p.attrs {
			break
		}
		if t := templates[i]; !chosen[t.ident] {
			chosen[t.ident] = true
			ts = append(ts, t)
		}
	}
	for len(ts) > 0 {
		n := 1 + w.r.IntN(len(ts))
		w.write(declareReq(ts[:n]))
		ts = ts[n:]
	}
}

// declareReq is the request that declares attributes the way database.Declare does.
func declareReq(ts []attrTemplate) (req Request) {
	for i, t := range ts {
		e := TempID(fmt.Sprint(i))
		req.Claims = append(req.Claims, Claim{E: e, A: sys.DbIdent, V: String(t.ident)}, Claim{E: e, A: sys.AttrType, V: t.typ})
		if t.unique != 0 {
			req.Claims = append(req.Claims, Claim{E: e, A: sys.AttrUnique, V: t.unique})
		}
		if t.card != 0 {
			req.Claims = append(req.Claims, Claim{E: e, A: sys.AttrCardinality, V: t.card})
		}
	}
	return
}

var _ = database.Declare

// anyAttr chooses an attribute that users write.
func (w *world) anyAttr() (a attrInfo, ok bool) {
	as := w.userAttrs(nil)
	if w.r.chance(8) {
		return w.attrs[sys.DbRank], true
	}
	if len(as) == 0 {
		return
	}
	return pick(w.r, as), true
}

func (w *world) attrWhere(pred func(attrInfo) bool) (a attrInfo, ok bool) {
	as := w.userAttrs(pred)
	if len(as) == 0 {
		return w.anyAttr()
	}
	return pick(w.r, as), true
}

// who chooses who a claim is about: an entity in any form, or a temp id.
func (w *world) who(temps []TempID) ERef {
	if w.r.chance(40) && len(temps) > 0 {
		return pick(w.r, temps)
	}
	return w.eref(w.entity())
}

func (w *world) someTemps() (temps []TempID) {
	for range 1 + w.r.IntN(3) {
		temps = append(temps, w.temp())
	}
	return
}

func (w *world) goodClaim(temps []TempID) (c Claim, ok bool) {
	a, ok := w.anyAttr()
	if !ok {
		return
	}
	c = Claim{E: w.who(temps), A: w.aref(a), V: w.valRef(a.typ)}
	if a.typ == sys.AttrTypeRef && len(temps) > 0 && w.r.chance(40) {
		c.V = pick(w.r, temps)
	}
	return
}

func plain(w *world) (req Request) {
	temps := w.someTemps()
	for range 1 + w.r.IntN(5) {
		if c, ok := w.goodClaim(temps); ok {
			c.Retract = w.r.chance(8)
			req.Claims = append(req.Claims, c)
		}
	}
	return
}

// manyClaims are claims for values of attributes that are not unique, so that they are accepted.
func manyClaims(w *world) (req Request) {
	temps := w.someTemps()
	seen := map[string]bool{}
	for range 2 + w.r.IntN(8) {
		a, ok := w.attrWhere(func(a attrInfo) bool { return a.unique == 0 })
		if !ok {
			continue
		}
		c := Claim{E: w.who(temps), A: w.aref(a), V: w.val(a.typ)}
		if t, ok := c.E.(TempID); ok && !a.many {
			k := fmt.Sprint(t, a.id)
			if seen[k] {
				continue
			}
			seen[k] = true
		} else if !ok && !a.many {
			c.E = w.entity()
			k := fmt.Sprint(c.E, a.id)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		req.Claims = append(req.Claims, c)
	}
	return
}

// bulk makes many claims, about many new entities and about one that refers to all of them.
func bulk(w *world) (req Request) {
	n := 20 + w.r.IntN(60)
	temps := make([]TempID, n)
	for i := range temps {
		temps[i] = TempID(fmt.Sprintf("bulk%d", i))
	}
	hub := ERef(w.entity())
	if w.r.chance(40) {
		hub = temps[0]
	}
	ones := w.userAttrs(func(a attrInfo) bool { return a.unique == 0 && !a.many })
	manies := w.userAttrs(func(a attrInfo) bool { return a.unique == 0 && a.many })
	refs := w.userAttrs(func(a attrInfo) bool { return a.unique == 0 && a.many && a.typ == sys.AttrTypeRef })
	if len(refs) == 0 || len(ones) == 0 {
		return manyClaims(w)
	}
	for i, t := range temps {
		for _, j := range w.r.Perm(len(ones))[:min(2, len(ones))] {
			req.Claims = append(req.Claims, Claim{E: t, A: w.aref(ones[j]), V: w.val(ones[j].typ)})
		}
		req.Claims = append(req.Claims, Claim{E: hub, A: w.aref(refs[0]), V: t})
		if i > 0 && w.r.chance(30) {
			req.Claims = append(req.Claims, Claim{E: t, A: w.aref(refs[0]), V: temps[w.r.IntN(i)]})
		}
		if w.r.chance(30) {
			a := pick(w.r, manies)
			req.Claims = append(req.Claims, Claim{E: t, A: w.aref(a), V: w.val(a.typ)})
		}
	}
	if w.r.chance(25) {
		w.r.Shuffle(len(req.Claims), func(i, j int) { req.Claims[i], req.Claims[j] = req.Claims[j], req.Claims[i] })
	}
	if w.r.chance(10) {
		a := pick(w.r, ones)
		req.Claims = append(req.Claims, Claim{E: temps[n-1], A: w.aref(a), V: w.wrongVal(a.typ)})
	}
	return
}

// throng declares a great many attributes, or gives values for many of those there are.
func throng(w *world) (req Request) {
	if w.r.chance(60) {
		var as []attrInfo
		for _, a := range w.userAttrs(func(a attrInfo) bool { return !a.many && a.unique == 0 }) {
			if w.r.chance(50) {
				as = append(as, a)
			}
		}
		e := w.who([]TempID{w.temp()})
		for _, a := range as {
			req.Claims = append(req.Claims, Claim{E: e, A: w.aref(a), V: w.val(a.typ)})
		}
		return
	}
	var ts []attrTemplate
	for i := range 90 {
		name := fmt.Sprintf("t/%d", i)
		known := false
		for _, d := range w.data {
			known = known || d.A == sys.DbIdent && d.V == String(name)
		}
		if known || len(ts) >= 20+w.r.IntN(60) {
			continue
		}
		if !slices.Contains(w.idents, name) {
			w.idents = append(w.idents, name)
		}
		t := attrTemplate{ident: name, typ: pick(w.r, []ID{sys.AttrTypeInt, sys.AttrTypeString, sys.AttrTypeBool, sys.AttrTypeRef})}
		if w.r.chance(10) {
			t.card = sys.AttrCardinalityMany
		}
		if w.r.chance(10) && t.typ != sys.AttrTypeRef {
			t.unique = sys.AttrUniqueIdentity
		}
		ts = append(ts, t)
	}
	return declareReq(ts)
}

// crowd gives one entity a great many values of one attribute.
func crowd(w *world) (req Request) {
	as := w.userAttrs(func(a attrInfo) bool {
		return a.unique == 0 && a.many && (a.typ == sys.AttrTypeInt || a.typ == sys.AttrTypeRef)
	})
	if len(as) == 0 {
		return manyClaims(w)
	}
	a := pick(w.r, as)
	e := w.who([]TempID{w.temp()})
	n := 513 + w.r.IntN(crowdSize-513)
	if a.typ == sys.AttrTypeRef || w.r.chance(25) {
		n = 60 + w.r.IntN(100)
	}
	from := w.r.IntN(crowdSize - n)
	for i := range n {
		var v VRef = TempID(fmt.Sprintf("crowd%d", i))
		if a.typ == sys.AttrTypeInt {
			v = Int(crowdBase + from + i)
		}
		req.Claims = append(req.Claims, Claim{E: e, A: a.id, V: v})
	}
	return
}

// replace asserts another value of a cardinality one attribute.
func replace(w *world) (req Request) {
	var ds []Datum
	for _, d := range w.data {
		if a := w.attrs[d.A]; d.E >= sys.FirstUserID && a.id >= sys.FirstUserID && !a.many {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		return plain(w)
	}
	for range 1 + w.r.IntN(2) {
		d := pick(w.r, ds)
		a := w.attrs[d.A]
		c := Claim{E: w.eref(d.E), A: w.aref(a), V: w.valRef(a.typ)}
		req.Claims = append(req.Claims, c)
		if w.r.chance(25) {
			// The same value again, otherwise put.
			req.Claims = append(req.Claims, Claim{E: w.eref(d.E), A: w.aref(a), V: c.V})
		}
		if w.r.chance(25) {
			// Retract the old value before or after.
			rc := Claim{E: w.eref(d.E), A: w.aref(a), V: w.vary(d.V.(VRef)), Retract: true}
			if w.r.chance(50) {
				req.Claims = append(req.Claims, rc)
			} else {
				req.Claims = append([]Claim{rc}, req.Claims...)
			}
		}
	}
	return
}

func (w *world) userDatum() (d Datum, ok bool) {
	var ds []Datum
	for _, d := range w.data {
		if _, isAttr := w.attrs[d.E]; d.E >= sys.FirstUserID && !isAttr {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		return
	}
	return pick(w.r, ds), true
}

func (w *world) same(v Value) VRef {
	if id, ok := v.(ID); ok {
		switch x := w.ref(id).(type) {
		case ID:
			return x
		case Ident:
			return x
		case LookupRef:
			return x
		}
	}
	return w.vary(v.(VRef))
}

// reassert asserts datums that are present.
func reassert(w *world) (req Request) {
	for range 1 + w.r.IntN(3) {
		if d, ok := w.userDatum(); ok {
			a := w.attrs[d.A]
			req.Claims = append(req.Claims, Claim{E: w.eref(d.E), A: w.aref(a), V: w.same(d.V)})
		}
	}
	if w.r.chance(30) {
		if c, ok := w.goodClaim(nil); ok {
			req.Claims = append(req.Claims, c)
		}
	}
	return
}

func retractClaims(w *world) (req Request) {
	for range 1 + w.r.IntN(3) {
		d, ok := w.userDatum()
		if !ok {
			return plain(w)
		}
		a := w.attrs[d.A]
		c := Claim{E: w.eref(d.E), A: w.aref(a), V: w.same(d.V), Retract: true}
		if w.r.chance(20) {
			c.V = w.val(a.typ)
		}
		req.Claims = append(req.Claims, c)
		switch w.r.IntN(6) {
		case 0:
			// and assert it again
			again := c
			again.Retract = false
			req.Claims = append(req.Claims, again)
		case 1:
			// give the value to another
			req.Claims = append(req.Claims, Claim{E: w.who([]TempID{w.temp()}), A: w.aref(a), V: w.same(d.V)})
		}
	}
	return
}

// cardOneConflict asserts two values of a cardinality one attribute, of an entity by two names.
func cardOneConflict(w *world) (req Request) {
	a, ok := w.attrWhere(func(a attrInfo) bool { return !a.many })
	if !ok {
		return
	}
	v1, v2 := w.val(a.typ), w.val(a.typ)
	var e1, e2 ERef
	switch w.r.IntN(4) {
	case 0:
		t := w.temp()
		e1, e2 = t, t
	case 1:
		e := w.entity()
		e1, e2 = w.eref(e), w.eref(e)
	case 2:
		e1, e2 = TxnID{}, TxnID{}
	case 3:
		// A temp id that denotes an extant entity, or another temp id.
		id, ok := w.attrWhere(func(a attrInfo) bool { return a.unique == sys.AttrUniqueIdentity })
		if !ok || id.unique != sys.AttrUniqueIdentity {
			return
		}
		v := w.val(id.typ)
		t1, t2 := w.temp(), w.temp()
		e1, e2 = t1, t2
		if holder := w.holder(id.id, v.(Value)); holder != 0 && w.r.chance(50) {
			e2 = w.eref(holder)
			req.Claims = append(req.Claims, Claim{E: t1, A: w.aref(id), V: v})
		} else {
			req.Claims = append(req.Claims, Claim{E: t1, A: w.aref(id), V: v}, Claim{E: t2, A: w.aref(id), V: w.vary(v)})
		}
	}
	req.Claims = append(req.Claims, Claim{E: e1, A: w.aref(a), V: v1})
	if w.r.chance(30) {
		if c, ok := w.goodClaim(nil); ok {
			req.Claims = append(req.Claims, c)
		}
	}
	req.Claims = append(req.Claims, Claim{E: e2, A: w.aref(a), V: v2})
	w.r.Shuffle(len(req.Claims), func(i, j int) { req.Claims[i], req.Claims[j] = req.Claims[j], req.Claims[i] })
	return
}

// extant chooses a datum of an attribute for which the predicate holds.
func (w *world) extant(pred func(attrInfo) bool) (d Datum, ok bool) {
	var ds []Datum
	for _, d := range w.data {
		if a := w.attrs[d.A]; d.E >= sys.FirstUserID && pred(a) {
			if _, isAttr := w.attrs[d.E]; !isAttr {
				ds = append(ds, d)
			}
		}
	}
	if len(ds) == 0 {
		return
	}
	return pick(w.r, ds), true
}

func isIdentity(a attrInfo) bool    { return a.unique == sys.AttrUniqueIdentity }
func isValueUnique(a attrInfo) bool { return a.unique == sys.AttrUniqueValue }

// identity claims identity values for temp ids and entities.
func identity(w *world) (req Request) {
	temps := w.someTemps()
	for range 1 + w.r.IntN(4) {
		a, ok := w.attrWhere(isIdentity)
		if w.r.chance(25) {
			a = w.attrs[sys.DbIdent]
		}
		if !ok {
			return
		}
		v := w.val(a.typ)
		if a.id == sys.DbIdent {
			v = String(pick(w.r, userIdents))
		}
		if d, ok := w.extant(func(b attrInfo) bool { return b.id == a.id }); ok && w.r.chance(55) {
			v = w.same(d.V)
			if w.r.chance(30) {
				req.Claims = append(req.Claims, Claim{E: w.eref(d.E), A: w.aref(a), V: v})
			}
		}
		var e ERef = pick(w.r, temps)
		if w.r.chance(15) {
			e = w.eref(w.entity())
		}
		if w.r.chance(5) {
			e = TxnID{}
		}
		req.Claims = append(req.Claims, Claim{E: e, A: w.aref(a), V: v})
	}
	for range w.r.IntN(3) {
		if c, ok := w.goodClaim(temps); ok {
			req.Claims = append(req.Claims, c)
		}
	}
	w.r.Shuffle(len(req.Claims), func(i, j int) { req.Claims[i], req.Claims[j] = req.Claims[j], req.Claims[i] })
	return
}

// identityMix chains identities: temp ids that meet through values, references and each other.
func identityMix(w *world) (req Request) {
	ref, ok := w.attrWhere(func(a attrInfo) bool { return isIdentity(a) && a.typ == sys.AttrTypeRef })
	if !ok || ref.typ != sys.AttrTypeRef || !isIdentity(ref) {
		return identity(w)
	}
	a, ok := w.attrWhere(func(a attrInfo) bool { return isIdentity(a) && a.typ != sys.AttrTypeRef })
	if !ok {
		return identity(w)
	}
	t := []TempID{w.temp(), w.temp(), w.temp(), w.temp()}
	v := w.val(a.typ)
	if d, ok := w.extant(func(b attrInfo) bool { return b.id == a.id }); ok && w.r.chance(50) {
		v = w.same(d.V)
	}
	req.Claims = append(req.Claims,
		Claim{E: t[0], A: w.aref(ref), V: t[2]},
		Claim{E: t[1], A: w.aref(ref), V: t[3]},
		Claim{E: t[2], A: w.aref(a), V: v},
		Claim{E: t[3], A: w.aref(a), V: w.vary(v)},
	)
	if c, ok := w.goodClaim(t); ok {
		req.Claims = append(req.Claims, c)
	}
	if w.r.chance(30) {
		req.Claims = append(req.Claims, Claim{E: t[w.r.IntN(4)], A: sys.DbIdent, V: String(pick(w.r, userIdents))})
	}
	w.r.Shuffle(len(req.Claims), func(i, j int) { req.Claims[i], req.Claims[j] = req.Claims[j], req.Claims[i] })
	return
}

// chain identifies temp ids by references to temp ids that are identified by references, and so on, once or in two ways.
func chain(w *world) (req Request) {
	ref, ok := w.attrWhere(func(a attrInfo) bool { return isIdentity(a) && a.typ == sys.AttrTypeRef })
	if !ok || ref.typ != sys.AttrTypeRef || !isIdentity(ref) {
		return identity(w)
	}
	a, ok := w.attrWhere(func(a attrInfo) bool { return isIdentity(a) && a.typ != sys.AttrTypeRef })
	if !ok {
		return identity(w)
	}
	v := w.val(a.typ)
	if d, ok := w.extant(func(b attrInfo) bool { return b.id == a.id }); ok && w.r.chance(60) {
		v = w.same(d.V)
	}
	n := 3 + w.r.IntN(5)
	for k := range 1 + w.r.IntN(2) {
		for i := range n {
			c := Claim{E: TempID(fmt.Sprintf("chain%d.%d", k, i)), A: w.aref(ref), V: TempID(fmt.Sprintf("chain%d.%d", k, i-1))}
			if i == 0 {
				c.A, c.V = w.aref(a), w.vary(v)
			}
			req.Claims = append(req.Claims, c)
		}
	}
	if c, ok := w.goodClaim([]TempID{TempID(fmt.Sprintf("chain0.%d", n-1))}); ok {
		req.Claims = append(req.Claims, c)
	}
	switch {
	case w.r.chance(40):
		slices.Reverse(req.Claims)
	case w.r.chance(50):
		w.r.Shuffle(len(req.Claims), func(i, j int) { req.Claims[i], req.Claims[j] = req.Claims[j], req.Claims[i] })
	}
	return
}

// valueUnique claims values of value unique attributes.
func valueUnique(w *world) (req Request) {
	a, ok := w.attrWhere(isValueUnique)
	if !ok {
		return
	}
	temps := w.someTemps()
	v := w.valRef(a.typ)
	d, extant := w.extant(func(b attrInfo) bool { return b.id == a.id })
	if extant && w.r.chance(60) {
		v = w.same(d.V)
	}
	switch w.r.IntN(7) {
	case 0:
		req.Claims = append(req.Claims, Claim{E: pick(w.r, temps), A: w.aref(a), V: v})
	case 1:
		req.Claims = append(req.Claims, Claim{E: w.eref(w.entity()), A: w.aref(a), V: v})
	case 2:
		// the holder claims its own
		if extant {
			req.Claims = append(req.Claims, Claim{E: w.eref(d.E), A: w.aref(a), V: w.same(d.V)})
		}
	case 3:
		// two of the request
		req.Claims = append(req.Claims, Claim{E: w.who(temps), A: w.aref(a), V: v})
		if c, ok := w.goodClaim(temps); ok && w.r.chance(50) {
			req.Claims = append(req.Claims, c)
		}
		if x, ok := v.(Value); ok {
			v = w.same(x)
		}
		req.Claims = append(req.Claims, Claim{E: w.who(temps), A: w.aref(a), V: v})
	case 4:
		// retract it from its holder and claim it for another
		if extant {
			req.Claims = append(req.Claims, Claim{E: w.eref(d.E), A: w.aref(a), V: w.same(d.V), Retract: true},
				Claim{E: w.who(temps), A: w.aref(a), V: w.same(d.V)})
		}
	case 5:
		// retract what another holds
		if extant {
			req.Claims = append(req.Claims, Claim{E: w.who(temps), A: w.aref(a), V: w.same(d.V), Retract: true})
		}
	case 6:
		// retract the holder as a whole and claim its value
		if extant {
			req.Retractions = append(req.Retractions, Retraction{Constraints: map[IDRef]Void{w.ref(d.E): {}}})
			req.Claims = append(req.Claims, Claim{E: w.who(temps), A: w.aref(a), V: w.same(d.V)})
		}
	}
	return
}

// tempRefs builds entities that refer to one another by temp ids.
func tempRefs(w *world) (req Request) {
	temps := w.someTemps()
	for range 1 + w.r.IntN(4) {
		a, ok := w.attrWhere(func(a attrInfo) bool { return a.typ == sys.AttrTypeRef })
		if !ok || a.typ != sys.AttrTypeRef {
			return plain(w)
		}
		req.Claims = append(req.Claims, Claim{E: w.who(temps), A: w.aref(a), V: pick(w.r, temps)})
	}
	for range w.r.IntN(3) {
		if c, ok := w.goodClaim(temps); ok {
			req.Claims = append(req.Claims, c)
		}
	}
	w.r.Shuffle(len(req.Claims), func(i, j int) { req.Claims[i], req.Claims[j] = req.Claims[j], req.Claims[i] })
	return
}

func (w *world) undeclared() (ts []attrTemplate) {
	have := map[string]bool{}
	for _, a := range w.attrs {
		have[a.ident] = true
	}
	for _, t := range templates {
		if !have[t.ident] {
			ts = append(ts, t)
		}
	}
	return
}

func declare(w *world) (req Request) {
	ts := w.undeclared()
	if len(ts) == 0 {
		return redeclare(w)
	}
	w.r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	ts = ts[:1+w.r.IntN(min(2, len(ts)))]
	req = declareReq(ts)
	if w.r.chance(25) {
		// the definition by idents, in any order, or on an extant entity
		e := req.Claims[0].E
		for i := range req.Claims {
			c := &req.Claims[i]
			if id, ok := c.V.(ID); ok {
				for ident, x := range sys.Idents {
					if x == id && w.r.chance(50) {
						c.V = ident
					}
				}
			}
			if id, ok := c.A.(ID); ok && w.r.chance(50) {
				c.A = Ident(w.attrs[id].ident)
			}
		}
		if w.r.chance(50) {
			to := w.eref(w.entity())
			if w.r.chance(20) {
				to = TxnID{}
			}
			for i := range req.Claims {
				if req.Claims[i].E == e {
					req.Claims[i].E = to
				}
			}
		}
		w.r.Shuffle(len(req.Claims), func(i, j int) { req.Claims[i], req.Claims[j] = req.Claims[j], req.Claims[i] })
	}
	if w.r.chance(25) {
		if c, ok := w.goodClaim([]TempID{"0"}); ok {
			req.Claims = append(req.Claims, c)
		}
	}
	if w.r.chance(15) {
		// Use it at once.
		req.Claims = append(req.Claims, Claim{E: w.temp(), A: Ident(ts[0].ident), V: w.val(ts[0].typ)})
	}
	return
}

// badDeclare declares attributes that are invalid or incomplete, and ones with claims that cancel out.
func badDeclare(w *world) (req Request) {
	name := pick(w.r, []string{"x/a", "x/b", "x/c", "x/d"})
	e := ERef(w.temp())
	if w.r.chance(20) {
		e = w.eref(w.entity())
	}
	ident := Claim{E: e, A: sys.DbIdent, V: String(name)}
	typ := Claim{E: e, A: sys.AttrType, V: pick(w.r, []ID{sys.AttrTypeString, sys.AttrTypeInt, sys.AttrTypeRef})}
	unique := Claim{E: e, A: sys.AttrUnique, V: sys.AttrUniqueIdentity}
	card := Claim{E: e, A: sys.AttrCardinality, V: sys.AttrCardinalityMany}
	other := pick(w.r, []ID{sys.DbIdent, sys.Tx, sys.AttrTypeString, sys.AttrCardinalityOne, sys.AttrUniqueValue, sys.FirstUserID, w.entity()})
	switch w.r.IntN(12) {
	case 0:
		req.Claims = []Claim{typ}
	case 1:
		req.Claims = []Claim{ident, unique}
	case 2:
		req.Claims = []Claim{ident, card}
	case 3:
		req.Claims = []Claim{ident, {E: e, A: sys.AttrType, V: other}}
	case 4:
		req.Claims = []Claim{ident, typ, {E: e, A: sys.AttrUnique, V: other}}
	case 5:
		req.Claims = []Claim{ident, typ, {E: e, A: sys.AttrCardinality, V: other}}
	case 6:
		t2 := pick(w.r, []ID{sys.AttrTypeString, sys.AttrTypeInt, sys.AttrTypeBool})
		req.Claims = []Claim{ident, typ, {E: e, A: sys.AttrType, V: t2}}
	case 7:
		req.Claims = []Claim{ident, typ, {E: e, A: sys.DbIdent, V: String(name), Retract: true}}
	case 8:
		req.Claims = []Claim{{E: e, A: sys.DbIdent, V: String(name), Retract: true}, ident, typ}
	case 9:
		req.Claims = []Claim{ident, typ, {E: e, A: sys.AttrType, V: typ.V, Retract: true}}
	case 10:
		// an extant entity with an ident becomes an attribute while it is retracted
		for _, ref := range w.entities() {
			if refs := w.refs(ref); len(refs) > 0 {
				ident.E, typ.E = ref, ref
				for _, r := range refs {
					if i, ok := r.(Ident); ok {
						ident.V = String(i)
					}
				}
				req.Claims = []Claim{ident, typ}
				req.Retractions = append(req.Retractions, Retraction{Constraints: map[IDRef]Void{ref: {}}})
				return
			}
		}
		req.Claims = []Claim{ident, typ, unique, card}
	case 11:
		// two entities would have the ident, or it belongs to another
		req.Claims = []Claim{ident, typ, {E: w.eref(w.entity()), A: sys.DbIdent, V: String(name)}}
	}
	if w.r.chance(30) {
		w.r.Shuffle(len(req.Claims), func(i, j int) { req.Claims[i], req.Claims[j] = req.Claims[j], req.Claims[i] })
	}
	return
}

func (w *world) definition(a attrInfo, e ERef) (claims []Claim) {
	for _, d := range w.datumsOf(a.id) {
		switch d.A {
		case sys.DbIdent, sys.AttrType, sys.AttrUnique, sys.AttrCardinality:
			v := d.V.(VRef)
			if id, ok := v.(ID); ok && w.r.chance(30) {
				for ident, x := range sys.Idents {
					if x == id {
						v = ident
					}
				}
			}
			var da IDRef = d.A
			if w.r.chance(30) {
				da = Ident(w.attrs[d.A].ident)
			}
			claims = append(claims, Claim{E: e, A: da, V: v})
		}
	}
	return
}

// redeclare declares attributes as they are, or parts thereof.
func redeclare(w *world) (req Request) {
	as := w.userAttrs(nil)
	if len(as) == 0 {
		return
	}
	for range 1 + w.r.IntN(2) {
		a := pick(w.r, as)
		var e ERef = w.temp()
		if w.r.chance(40) {
			e = w.eref(a.id)
		}
		cs := w.definition(a, e)
		if w.r.chance(30) {
			i := w.r.IntN(len(cs))
			if _, isTemp := e.(TempID); !isTemp || cs[i].A != IDRef(sys.DbIdent) {
				cs = append(cs[:i:i], cs[i+1:]...)
			}
		}
		req.Claims = append(req.Claims, cs...)
	}
	if w.r.chance(30) {
		if c, ok := w.goodClaim(nil); ok {
			req.Claims = append(req.Claims, c)
		}
	}
	if w.r.chance(30) {
		w.r.Shuffle(len(req.Claims), func(i, j int) { req.Claims[i], req.Claims[j] = req.Claims[j], req.Claims[i] })
	}
	return
}

// attrChange would change an attribute.
func attrChange(w *world) (req Request) {
	as := w.userAttrs(nil)
	if len(as) == 0 {
		return
	}
	a := pick(w.r, as)
	e := w.eref(a.id)
	if w.r.chance(30) {
		t := w.temp()
		e = t
		req.Claims = append(req.Claims, Claim{E: t, A: sys.DbIdent, V: String(a.ident)})
	}
	var c Claim
	switch w.r.IntN(7) {
	case 0:
		c = Claim{E: e, A: sys.AttrType, V: pick(w.r, []ID{sys.AttrTypeString, sys.AttrTypeInt, sys.AttrTypeRef, sys.AttrTypeFloat})}
	case 1:
		c = Claim{E: e, A: sys.AttrUnique, V: pick(w.r, []ID{sys.AttrUniqueIdentity, sys.AttrUniqueValue, sys.Tx})}
	case 2:
		c = Claim{E: e, A: sys.AttrCardinality, V: pick(w.r, []ID{sys.AttrCardinalityOne, sys.AttrCardinalityMany})}
	case 3:
		c = Claim{E: w.eref(a.id), A: sys.DbIdent, V: String(pick(w.r, append([]string{"e/alice", "x/a"}, a.ident)))}
	case 4:
		ds := w.datumsOf(a.id)
		d := pick(w.r, ds)
		c = Claim{E: e, A: w.aref(w.attrs[d.A]), V: d.V.(VRef), Retract: true}
	case 5:
		req.Retractions = append(req.Retractions, Retraction{Constraints: map[IDRef]Void{w.ref(a.id): {}}})
		return Request{Retractions: req.Retractions}
	case 6:
		// data about an attribute is data
		if b, ok := w.anyAttr(); ok {
			c = Claim{E: e, A: w.aref(b), V: w.valRef(b.typ)}
		}
	}
	if c.E != nil {
		req.Claims = append(req.Claims, c)
	}
	if w.r.chance(30) {
		if c, ok := w.goodClaim(nil); ok {
			req.Claims = append([]Claim{c}, req.Claims...)
		}
	}
	return
}

func (w *world) sysEntity() ID {
	return pick(w.r, []ID{sys.DbIdent, sys.AttrType, sys.AttrUnique, sys.AttrCardinality, sys.Tx, sys.TxAt, sys.AttrUniqueIdentity,
		sys.AttrUniqueValue, sys.AttrCardinalityOne, sys.AttrTypeString, sys.AttrTypeRef, sys.DbRank, ID(20), ID(500), sys.FirstUserID - 1})
}

// sysClaims are claims about the system's entities.
func sysClaims(w *world) (req Request) {
	e := w.sysEntity()
	var c Claim
	switch w.r.IntN(6) {
	case 0:
		ds := w.datumsOf(e)
		if len(ds) == 0 {
			c = Claim{E: e, A: sys.DbRank, V: Int(1)}
			break
		}
		d := pick(w.r, ds)
		c = Claim{E: w.eref(e), A: w.aref(w.attrs[d.A]), V: d.V.(VRef), Retract: w.r.chance(50)}
	case 1:
		a, ok := w.anyAttr()
		if !ok {
			a = w.attrs[sys.DbRank]
		}
		c = Claim{E: w.eref(e), A: w.aref(a), V: w.valRef(a.typ), Retract: w.r.chance(20)}
	case 2:
		a := pick(w.r, []ID{sys.AttrType, sys.AttrUnique, sys.AttrCardinality, sys.AttrRefType})
		if a == sys.AttrRefType {
			a = sys.AttrType
		}
		c = Claim{E: w.eref(e), A: a, V: pick(w.r, []ID{sys.AttrTypeInt, sys.AttrUniqueValue, sys.AttrCardinalityMany})}
	case 3:
		if len(w.datumsOf(e)) == 0 {
			e = sys.Tx
		}
		req.Retractions = append(req.Retractions, Retraction{Constraints: map[IDRef]Void{w.ref(e): {}}})
		if w.r.chance(50) {
			if c, ok := w.goodClaim(nil); ok {
				req.Claims = append(req.Claims, c)
			}
		}
		return
	case 4:
		c = Claim{E: w.eref(e), A: sys.DbIdent, V: String(pick(w.r, userIdents))}
	case 5:
		// a temp id that denotes a system entity
		t := w.temp()
		req.Claims = append(req.Claims, Claim{E: t, A: w.aref(w.attrs[sys.DbIdent]), V: String(pick(w.r, sysIdentNames))})
		a, ok := w.anyAttr()
		if !ok {
			return
		}
		c = Claim{E: t, A: w.aref(a), V: w.valRef(a.typ)}
	}
	req.Claims = append(req.Claims, c)
	if w.r.chance(40) {
		if c, ok := w.goodClaim(nil); ok {
			req.Claims = append([]Claim{c}, req.Claims...)
		}
	}
	return
}

// sysIdent claims idents in the reserved space, and near it.
func sysIdent(w *world) (req Request) {
	s := pick(w.r, []string{"sys/nothing", "sys/db/idents", "sys/db/ident", "sys/attr/type/string"})
	if w.r.chance(25) {
		s = pick(w.r, nearIdents)
	}
	var e ERef = w.temp()
	switch w.r.IntN(3) {
	case 0:
		e = w.eref(w.entity())
	case 1:
		if w.r.chance(30) {
			e = TxnID{}
		}
	}
	req.Claims = append(req.Claims, Claim{E: e, A: w.aref(w.attrs[sys.DbIdent]), V: String(s)})
	if w.r.chance(40) {
		if c, ok := w.goodClaim(nil); ok {
			req.Claims = append([]Claim{c}, req.Claims...)
		}
	}
	if w.r.chance(20) {
		req.Claims = append(req.Claims, Claim{E: w.temp(), A: sys.AttrType, V: sys.AttrTypeString})
	}
	return
}

// identClaims name, rename and unname entities.
func identClaims(w *world) (req Request) {
	a := w.attrs[sys.DbIdent]
	for range 1 + w.r.IntN(3) {
		name := pick(w.r, userIdents)
		if w.r.chance(15) {
			name = pick(w.r, []string{"x/a", "x/b", "x/c", "x/d"})
		} else if w.r.chance(10) {
			name = pick(w.r, nearIdents)
		}
		d, ok := w.extant(func(b attrInfo) bool { return b.id == sys.DbIdent })
		switch n := w.r.IntN(10); {
		case n < 3:
			req.Claims = append(req.Claims, Claim{E: w.who([]TempID{w.temp()}), A: w.aref(a), V: String(name)})
		case n < 5 && ok:
			req.Claims = append(req.Claims, Claim{E: w.eref(d.E), A: w.aref(a), V: String(name)})
		case n < 7 && ok:
			req.Claims = append(req.Claims, Claim{E: w.eref(d.E), A: w.aref(a), V: d.V.(VRef), Retract: true})
			if w.r.chance(40) {
				req.Claims = append(req.Claims, Claim{E: w.eref(d.E), A: w.aref(a), V: String(name)})
			}
		case n < 8 && ok:
			// retract an ident from an entity that has not got it
			req.Claims = append(req.Claims, Claim{E: w.entity(), A: w.aref(a), V: d.V.(VRef), Retract: true})
		case n < 9 && ok:
			req.Retractions = append(req.Retractions, Retraction{Constraints: map[IDRef]Void{w.ref(d.E): {}}})
			if w.r.chance(40) {
				req.Claims = append(req.Claims, Claim{E: w.eref(d.E), A: w.aref(a), V: String(name)})
			}
		default:
			req.Claims = append(req.Claims, Claim{E: w.entity(), A: w.aref(a), V: String(name)})
		}
	}
	return
}

// names gives, moves and takes away names and keys of entities, and uses them in the same request.
func names(w *world) (req Request) {
	scenario := identClaims
	switch w.r.IntN(5) {
	case 0, 1:
		scenario = identity
	case 2:
		scenario = valueUnique
	case 3:
		scenario = retractClaims
	}
	req = scenario(w)
	var refs []IDRef
	add := func(a ID, v VRef) {
		info, is := w.attrs[a]
		switch {
		case !is:
			return
		case a == sys.DbIdent:
			if s, is := v.(String); is && s != "" {
				refs = append(refs, Ident(s))
			}
			fallthrough
		case info.unique != 0:
			if x, is := v.(Value); is {
				refs = append(refs, LookupRef{A: w.aref(info), V: x})
			}
		}
	}
	for _, c := range req.Claims {
		switch a := c.A.(type) {
		case ID:
			add(a, c.V)
		case Ident:
			for id, info := range w.attrs {
				if info.ident == string(a) {
					add(id, c.V)
				}
			}
		}
		if e, is := c.E.(ID); is {
			for _, d := range w.datumsOf(e) {
				add(d.A, d.V.(VRef))
			}
		}
	}
	if len(refs) == 0 {
		return
	}
	for range 1 + w.r.IntN(2) {
		ref := pick(w.r, refs)
		var c Claim
		as := w.userAttrs(func(a attrInfo) bool { return a.typ == sys.AttrTypeRef && a.unique == 0 })
		switch n := w.r.IntN(10); {
		case n < 5 && len(as) > 0:
			c = Claim{E: w.who([]TempID{w.temp()}), A: w.aref(pick(w.r, as)), V: ref.(VRef)}
		case n < 9:
			a, ok := w.anyAttr()
			if !ok {
				return
			}
			c = Claim{E: ref.(ERef), A: w.aref(a), V: w.valRef(a.typ)}
			c.Retract = w.r.chance(15)
		default:
			req.Retractions = append(req.Retractions, Retraction{Constraints: map[IDRef]Void{ref: {}}})
			continue
		}
		i := w.r.IntN(len(req.Claims) + 1)
		if w.r.chance(50) {
			i = len(req.Claims)
		}
		req.Claims = append(req.Claims[:i:i], append([]Claim{c}, req.Claims[i:]...)...)
	}
	return
}

// badRefs puts a reference that does not resolve into a request that is otherwise good.
func badRefs(w *world) (req Request) {
	req = manyClaims(w)
	bad := w.badRef()
	c, ok := w.goodClaim(nil)
	if !ok {
		return
	}
	switch w.r.IntN(3) {
	case 0:
		c.E = bad.(ERef)
	case 1:
		c.A = bad.(IDRef)
	case 2:
		for {
			if _, isID := bad.(ID); !isID {
				break
			}
			bad = w.badRef()
		}
		a, ok := w.attrWhere(func(a attrInfo) bool { return a.typ == sys.AttrTypeRef })
		if ok {
			c.A = w.aref(a)
		}
		c.V = bad.(VRef)
	}
	c.Retract = w.r.chance(20)
	i := w.r.IntN(len(req.Claims) + 1)
	req.Claims = append(req.Claims[:i:i], append([]Claim{c}, req.Claims[i:]...)...)
	return
}

// badVals puts a mistyped or missing value, or an entity that is no attribute, into a request.
func badVals(w *world) (req Request) {
	if w.r.chance(60) {
		req = manyClaims(w)
	}
	a, ok := w.anyAttr()
	if !ok {
		return
	}
	c := Claim{E: w.who([]TempID{w.temp()}), A: w.aref(a), V: w.valRef(a.typ)}
	switch w.r.IntN(7) {
	case 0, 1:
		c.V = w.wrongVal(a.typ)
	case 2:
		c.V = nil
	case 3:
		// an ident, lookup or temp id where a scalar is expected
		if a.typ == sys.AttrTypeRef {
			a = w.attrs[sys.DbRank]
			c.A = w.aref(a)
		}
		switch w.r.IntN(3) {
		case 0:
			c.V = TempID("t1")
		case 1:
			c.V = Ident(pick(w.r, append([]string{"sys/db/ident"}, userIdents...)))
		case 2:
			c.V = LookupRef{A: sys.DbIdent, V: String("sys/db/ident")}
		}
	case 4:
		// not an attribute
		c.A = w.ref(w.entity())
		if w.r.chance(30) {
			c.A = w.ref(pick(w.r, []ID{sys.Tx, sys.AttrTypeString, sys.AttrCardinalityMany}))
		}
	case 5:
		c.V = alien("v")
	case 6:
		// text where a name is expected
		as := w.userAttrs(func(a attrInfo) bool { return a.typ == sys.AttrTypeRef })
		if len(as) > 0 {
			c.A = w.aref(pick(w.r, as))
			c.V = String(pick(w.r, append([]string{"sys/db/ident"}, userIdents...)))
		}
	}
	c.Retract = w.r.chance(20)
	i := w.r.IntN(len(req.Claims) + 1)
	req.Claims = append(req.Claims[:i:i], append([]Claim{c}, req.Claims[i:]...)...)
	return
}

// retraction constrains a retraction by some of the names of the entity.
func (w *world) retraction(e ID) Retraction {
	m := map[IDRef]Void{}
	refs := append([]IDRef{e}, w.refs(e)...)
	for range 1 + w.r.IntN(3) {
		m[pick(w.r, refs)] = Void{}
	}
	return Retraction{Constraints: m}
}

func retractEntity(w *world) (req Request) {
	for range 1 + w.r.IntN(2) {
		e := w.entity()
		if len(w.datumsOf(e)) == 0 && w.r.chance(80) {
			if es := w.entities(); len(es) > 0 {
				e = pick(w.r, es)
			}
		}
		req.Retractions = append(req.Retractions, w.retraction(e))
		if w.r.chance(25) {
			// claims about it, or its values, at the same time
			for range 1 + w.r.IntN(2) {
				if c, ok := w.goodClaim(nil); ok {
					c.E = w.eref(e)
					if ds := w.datumsOf(e); len(ds) > 0 && w.r.chance(60) {
						d := pick(w.r, ds)
						c.A, c.V = w.aref(w.attrs[d.A]), w.same(d.V)
						c.Retract = w.r.chance(30)
						if w.r.chance(20) {
							c.E = w.temp()
						}
					}
					req.Claims = append(req.Claims, c)
				}
			}
		}
	}
	if w.r.chance(25) {
		more := manyClaims(w)
		req.Claims = append(req.Claims, more.Claims...)
	}
	return
}

func badRetraction(w *world) (req Request) {
	if w.r.chance(50) {
		req = manyClaims(w)
	}
	m := map[IDRef]Void{}
	e := w.entity()
	switch w.r.IntN(6) {
	case 0:
	case 1:
		m[w.badRef().(IDRef)] = Void{}
	case 2:
		m[w.ref(e)] = Void{}
		m[w.badRef().(IDRef)] = Void{}
	case 3:
		es := w.entities()
		if len(es) > 1 {
			m[w.ref(pick(w.r, es))] = Void{}
			m[w.ref(pick(w.r, es))] = Void{}
		}
	case 4:
		e := w.sysEntity()
		if len(w.datumsOf(e)) == 0 {
			e = sys.DbIdent
		}
		m[w.ref(e)] = Void{}
	case 5:
		if as := w.userAttrs(nil); len(as) > 0 {
			m[w.ref(pick(w.r, as).id)] = Void{}
		}
	}
	if w.r.chance(40) {
		req.Retractions = append(req.Retractions, w.retraction(e))
	}
	req.Retractions = append(req.Retractions, Retraction{Constraints: m})
	w.r.Shuffle(len(req.Retractions), func(i, j int) {
		req.Retractions[i], req.Retractions[j] = req.Retractions[j], req.Retractions[i]
	})
	return
}

// txnClaims describe the transaction.
func txnClaims(w *world) (req Request) {
	if w.r.chance(50) {
		req = manyClaims(w)
	}
	for range 1 + w.r.IntN(2) {
		a, ok := w.anyAttr()
		if w.r.chance(30) {
			a, ok = w.attrs[sys.TxAt], true
		}
		if ok {
			req.Claims = append(req.Claims, Claim{E: TxnID{}, A: w.aref(a), V: w.valRef(a.typ), Retract: w.r.chance(8)})
		}
	}
	return
}

// lateFault is a request with much that is good and one thing that is not.
func lateFault(w *world) (req Request) {
	good := []scenario{manyClaims, declare, retractEntity, identClaims, replace, reassert}
	for range 1 + w.r.IntN(3) {
		r := pick(w.r, good)(w)
		req.Claims = append(req.Claims, r.Claims...)
		req.Retractions = append(req.Retractions, r.Retractions...)
	}
	bad := []scenario{badRefs, badVals, attrChange, badDeclare, sysIdent, sysClaims, valueUnique, cardOneConflict, badRetraction}
	r := pick(w.r, bad)(w)
	if len(r.Claims) > 2 {
		r.Claims = r.Claims[len(r.Claims)-2:]
	}
	if w.r.chance(60) {
		req.Claims = append(req.Claims, r.Claims...)
	} else {
		req.Claims = append(r.Claims, req.Claims...)
	}
	req.Retractions = append(req.Retractions, r.Retractions...)
	return
}

// refForms writes with references in every form, in every position.
func refForms(w *world) (req Request) {
	for range 1 + w.r.IntN(3) {
		a, ok := w.attrWhere(func(a attrInfo) bool { return a.unique == 0 })
		if !ok {
			return
		}
		pickRef := func(e ID) IDRef {
			refs := w.refs(e)
			if len(refs) == 0 {
				return e
			}
			return pick(w.r, refs)
		}
		c := Claim{E: pickRef(w.entity()).(ERef), A: w.aref(a), V: w.valRef(a.typ)}
		if w.r.chance(30) {
			// what the same request renames, retracts or creates
			if d, ok := w.extant(func(b attrInfo) bool { return b.unique != 0 }); ok {
				c.E = pickRef(d.E).(ERef)
				b := w.attrs[d.A]
				if b.id == sys.DbIdent {
					req.Claims = append(req.Claims, Claim{E: d.E, A: sys.DbIdent, V: String(pick(w.r, userIdents))})
				} else {
					req.Claims = append(req.Claims, Claim{E: d.E, A: w.aref(b), V: w.same(d.V), Retract: true})
				}
			}
		}
		c.Retract = w.r.chance(10)
		req.Claims = append(req.Claims, c)
	}
	return
}

// malformed requests are missing things or hold things the database does not know.
func malformed(w *world) (req Request) {
	if w.r.chance(50) {
		req = manyClaims(w)
	}
	c, ok := w.goodClaim(nil)
	if !ok {
		return
	}
	switch w.r.IntN(12) {
	case 0:
		c = Claim{}
	case 1:
		c.E = nil
	case 2:
		c.A = nil
	case 3:
		c.V = nil
	case 4:
		c.E = alien("e")
	case 5:
		c.A = alien("a")
	case 6:
		c.V = alien("v")
	case 7:
		c.E = LookupRef{A: alien("a"), V: String("a")}
	case 8:
		c.E = LookupRef{A: sys.DbIdent, V: alien("v")}
	case 9:
		req.Retractions = append(req.Retractions, Retraction{})
		return
	case 10:
		req.Retractions = append(req.Retractions, Retraction{Constraints: map[IDRef]Void{nil: {}}})
		return
	case 11:
		req.Retractions = append(req.Retractions, Retraction{Constraints: map[IDRef]Void{alien("r"): {}, LookupRef{}: {}}})
		return
	}
	c.Retract = w.r.chance(20)
	i := w.r.IntN(len(req.Claims) + 1)
	req.Claims = append(req.Claims[:i:i], append([]Claim{c}, req.Claims[i:]...)...)
	return
}
