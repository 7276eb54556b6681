package main

import (
	"fmt"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// A rejected request must leave nothing behind. What it could leave behind shows in later requests:
// aftermath makes a request that is to be rejected and then looks in its wake.
func aftermath(w *world) (req Request) {
	if w.r.chance(45) {
		return aftermathOfDeclarations(w)
	}
	return aftermathOfClaims(w)
}

// fault adds a claim that has a request rejected, somewhere.
func (w *world) fault(req Request) Request {
	temp := w.temp()
	var bad []Claim
	switch w.r.IntN(6) {
	case 0:
		bad = []Claim{{E: temp, A: Ident("a/nowhere"), V: String("a")}}
	case 1:
		bad = []Claim{{E: Ident("e/nobody"), A: sys.DbRank, V: Int(1)}}
	case 2:
		bad = []Claim{{E: temp, A: sys.DbRank, V: String("a")}}
	case 3:
		bad = []Claim{{E: sys.DbIdent, A: sys.DbRank, V: Int(1)}}
	case 4:
		bad = []Claim{{E: temp, A: sys.DbRank, V: Int(1)}, {E: temp, A: sys.DbRank, V: Int(2)}}
	case 5:
		bad = []Claim{{E: temp, A: sys.AttrType, V: sys.AttrTypeString}}
	}
	switch {
	case w.r.chance(60):
		req.Claims = append(append([]Claim{}, req.Claims...), bad...)
	case w.r.chance(50):
		req.Claims = append(bad, req.Claims...)
	default:
		i := w.r.IntN(len(req.Claims) + 1)
		req.Claims = append(append(append([]Claim{}, req.Claims[:i]...), bad...), req.Claims[i:]...)
	}
	return req
}

// aftermathOfClaims has claims rejected for the sake of another one, and makes them again, or others in their stead.
func aftermathOfClaims(w *world) (req Request) {
	good := []scenario{manyClaims, identity, identityMix, valueUnique, identClaims, replace, reassert, retractEntity, tempRefs, retractClaims, txnClaims}
	for range 1 + w.r.IntN(2) {
		r := pick(w.r, good)(w)
		req.Claims = append(req.Claims, r.Claims...)
		req.Retractions = append(req.Retractions, r.Retractions...)
	}
	w.write(w.fault(req))
	switch w.r.IntN(4) {
	case 0:
		// as it was
	case 1:
		// about others
		temps := map[ERef]ERef{}
		for i := range req.Claims {
			c := &req.Claims[i]
			if _, ok := temps[c.E]; !ok {
				temps[c.E] = w.temp()
			}
			if c.A == IDRef(sys.DbIdent) || w.r.chance(70) {
				c.E = temps[c.E]
			}
		}
		req.Retractions = nil
	case 2:
		// a part
		if len(req.Claims) > 1 {
			i := w.r.IntN(len(req.Claims))
			req.Claims = append(req.Claims[:i:i], req.Claims[i+1:]...)
		}
	case 3:
		// something else first
		w.write(manyClaims(w))
	}
	return req
}

// aftermathOfDeclarations has declarations rejected, and sees that there are no such attributes.
func aftermathOfDeclarations(w *world) (req Request) {
	perm := w.undeclared()
	w.r.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	ts := perm[:min(len(perm), 1+w.r.IntN(3))]
	req = declareReq(ts)
	names := []string{}
	for _, t := range ts {
		names = append(names, t.ident)
	}
	if w.r.chance(30) {
		// an extant entity would become an attribute
		e := w.entity()
		for i := range req.Claims {
			if req.Claims[i].E == ERef(TempID("0")) {
				req.Claims[i].E = e
			}
		}
	}
	if w.r.chance(50) {
		bad := badDeclare(w)
		if w.r.chance(50) {
			req.Claims = append(req.Claims, bad.Claims...)
		} else {
			req.Claims = append(bad.Claims, req.Claims...)
		}
		names = append(names, "x/a", "x/b")
		if w.r.chance(30) {
			req = w.fault(req)
		}
	} else {
		req = w.fault(req)
	}
	from := w.hw
	if w.write(req) {
		return plain(w)
	}
	if w.r.chance(70) {
		// Entities that may come to have the ids of the would-be attributes.
		more := Request{}
		for i := range 2 + w.r.IntN(5) {
			more.Claims = append(more.Claims, Claim{E: TempID(fmt.Sprint("m", i)), A: sys.DbRank, V: Int(i)})
		}
		w.write(more)
	}
	vals := []VRef{String("a"), Int(1), Bool(true), Float(0.5), w.val(sys.AttrTypeInst), ID(sys.Tx)}
	for range 4 + w.r.IntN(8) {
		a := from + 1 + ID(w.r.IntN(8))
		if w.attrs[a].id != 0 {
			continue
		}
		w.write(Request{Claims: []Claim{{E: w.who([]TempID{"1"}), A: a, V: pick(w.r, vals)}}})
		if w.r.chance(20) {
			w.query(nil, Claim{A: a})
		}
	}
	if len(names) > 0 {
		name := pick(w.r, names)
		w.write(Request{Claims: []Claim{{E: w.who([]TempID{"1"}), A: Ident(name), V: pick(w.r, vals)}}})
		if w.r.chance(50) {
			// The ident is another's now.
			w.write(Request{Claims: []Claim{{E: TempID("1"), A: sys.DbIdent, V: String(name)}}})
		}
	}
	if len(ts) > 0 && w.r.chance(60) {
		t := &ts[0]
		if w.r.chance(50) {
			t.card = pick(w.r, []ID{0, sys.AttrCardinalityMany, sys.AttrCardinalityOne})
			t.unique = pick(w.r, []ID{0, sys.AttrUniqueIdentity, sys.AttrUniqueValue})
			t.typ = pick(w.r, []ID{sys.AttrTypeString, sys.AttrTypeInt})
		}
		w.write(declareReq(ts[:1]))
	}
	return plain(w)
}
