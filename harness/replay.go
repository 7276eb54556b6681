package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/dball/destructive/internal/database"
	. "github.com/dball/destructive/internal/types"
)

// smallWorld is a world of the specification (Themes.tla).
type smallWorld struct {
	Setup    []smallReq
	Requests []smallReq
	Queries  [][]J
}

type smallReq struct {
	Claims [][]J
	Rets   [][]J
}

// errand is a state of a small world, by the requests that lead there, with the requests and queries to try in it,
// all numbered from one.
type errand struct {
	Path     []int
	Requests []int
	Queries  []int
}

type unbound struct{}

// denote makes a reference or a value from its description. Names are bound.
func denote(j J, names map[string]ID) any {
	js := j.([]J)
	switch kind := js[0].(string); kind {
	case "nil":
		return nil
	case "name":
		id, ok := names[js[1].(string)]
		if !ok {
			panic(unbound{})
		}
		return id
	case "id":
		return ID(js[1].(float64))
	case "ident":
		return Ident(strVal(js[1].(string)))
	case "temp":
		return TempID(js[1].(string))
	case "txn":
		return TxnID{}
	case "bad":
		return alien("a")
	case "lookup":
		a, _ := denote(js[1], names).(IDRef)
		v, _ := denote(js[2], names).(Value)
		return LookupRef{A: a, V: v}
	default:
		if len(js) == 3 {
			switch v := denote(js[:2], names).(type) {
			case Float:
				return -v
			case Inst:
				if js[2] == "z" {
					return Inst(time.Time(v).In(zones[1]))
				}
				return Inst(time.Time(v).Add(999999))
			}
		}
		for _, v := range allVals {
			if s := valJ(v).([]J); s[0] == kind && s[1] == js[1] {
				return v
			}
		}
		if kind == "str" {
			return String(strVal(js[1].(string)))
		}
		panic(fmt.Sprint("no such value ", j))
	}
}

var allVals []any

func init() {
	for _, v := range intVals {
		allVals = append(allVals, Int(v))
	}
	for _, v := range floatVals {
		allVals = append(allVals, Float(v.val))
	}
	for _, v := range instVals {
		allVals = append(allVals, instOf(v))
	}
	allVals = append(allVals, Bool(false), Bool(true))
}

// ask as a request, with its names bound, if they all are.
func (r smallReq) bind(names map[string]ID) (req Request, ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(unbound); !is {
				panic(p)
			}
			ok = false
		}
	}()
	for _, c := range r.Claims {
		claim := Claim{Retract: c[3].(bool)}
		claim.E, _ = denote(c[0], names).(ERef)
		claim.A, _ = denote(c[1], names).(IDRef)
		claim.V, _ = denote(c[2], names).(VRef)
		req.Claims = append(req.Claims, claim)
	}
	for _, refs := range r.Rets {
		ret := Retraction{Constraints: map[IDRef]Void{}}
		for _, ref := range refs {
			x, _ := denote(ref, names).(IDRef)
			ret.Constraints[x] = Void{}
		}
		req.Retractions = append(req.Retractions, ret)
	}
	return req, true
}

func bindQuery(q []J, names map[string]ID) (c Claim, ok bool) {
	r := smallReq{Claims: [][]J{{q[0], q[1], q[2], false}}}
	for _, j := range q {
		if js := j.([]J); js[0] == "id" && js[1].(float64) == 0 {
			return
		}
	}
	req, ok := r.bind(names)
	if ok {
		c = req.Claims[0]
	}
	return
}

// tokens gathers the strings of the world, any of which may be an ident.
func tokens(j J, into map[string]bool) {
	switch x := j.(type) {
	case []J:
		if len(x) == 2 {
			if k, ok := x[0].(string); ok && (k == "str" || k == "ident") {
				into[strVal(x[1].(string))] = true
				return
			}
		}
		for _, y := range x {
			tokens(y, into)
		}
	}
}

func runReplay(s *sink, r rng, worldPath, planPath string, snaps bool) {
	var sw smallWorld
	b, err := os.ReadFile(worldPath)
	if err == nil {
		err = json.Unmarshal(b, &sw)
	}
	if err != nil {
		panic(err)
	}
	names := map[string]bool{}
	for _, list := range [][]smallReq{sw.Setup, sw.Requests} {
		for _, q := range list {
			for _, c := range q.Claims {
				tokens([]J(c), names)
			}
		}
	}
	for _, known := range sysIdentNames {
		delete(names, known)
	}
	delete(names, "")
	f, err := os.Open(planPath)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	lines := bufio.NewScanner(f)
	lines.Buffer(nil, 1<<26)
	for n := 0; lines.Scan(); n++ {
		if strings.TrimSpace(lines.Text()) == "" {
			continue
		}
		var e errand
		if err := json.Unmarshal(lines.Bytes(), &e); err != nil {
			panic(err)
		}
		for len(e.Requests)+len(e.Queries) > 0 {
			h := &history{Mode: "replay", Seed: fmt.Sprintf("replay/%v/%d", e.Path, n)}
			e = runErrand(h, r, &sw, names, e, snaps)
			s.put(h)
		}
	}
}

// runErrand does as much of the errand as one history can show, and returns what is left to do.
func runErrand(h *history, r rng, sw *smallWorld, names map[string]bool, e errand, snaps bool) errand {
	w := newWorld(r, h, profile{keep: 0})
	w.idents = nil
	for name := range names {
		w.idents = append(w.idents, name)
	}
	w.temps = map[string]ID{}
	w.open()
	nothing := errand{Path: e.Path}
	steps := append([]smallReq{}, sw.Setup...)
	for _, n := range e.Path {
		steps = append(steps, sw.Requests[n-1])
	}
	for _, step := range steps {
		req, ok := step.bind(w.temps)
		if !ok || !w.write(req) {
			return nothing // which the specification has something to say about, if it should not be
		}
	}
	if h.hung {
		return nothing
	}
	h.add(ev{"k": "mark"})
	data, hw := w.data, w.hw
	bound := map[string]ID{}
	for k, v := range w.temps {
		bound[k] = v
	}
	for _, n := range e.Queries {
		if c, ok := bindQuery(sw.Queries[n-1], bound); ok {
			w.query(nil, c)
		}
	}
	e.Queries = nil
	for len(e.Requests) > 0 {
		req, ok := sw.Requests[e.Requests[0]-1].bind(w.temps)
		e.Requests = e.Requests[1:]
		if !ok {
			continue
		}
		if snaps && r.chance(30) && len(w.snaps) < 8 {
			w.takeSnap()
		}
		changed := w.write(req)
		if h.hung {
			return nothing
		}
		if !changed && len(w.h.Events[len(w.h.Events)-1]["panic"].(string)) == 0 {
			continue // the state is the same
		}
		for len(w.snaps) > 0 {
			w.observe(w.snaps[0])
			w.snaps[0].leave()
			h.add(ev{"k": "drop", "s": w.snaps[0].k})
			w.snaps = w.snaps[1:]
		}
		for range 2 {
			if c, ok := bindQuery(pick(r, sw.Queries), w.temps); ok {
				w.query(nil, c)
			}
		}
		if !w.again(steps, data, bound) {
			return e
		}
		w.hw = hw
		h.add(ev{"k": "back", "hw": int(hw)})
	}
	return nothing
}

// again makes the database anew, from the same requests, and says whether the result is the same.
func (w *world) again(steps []smallReq, data []Datum, bound map[string]ID) (same bool) {
	for range 4 {
		msg := w.h.guard(func() {
			w.db = database.NewIndexDatabase(pick(w.r, []int{2, 3, 64}), 0, 0)
			w.read = w.db.Read
			w.temps = map[string]ID{}
			for _, step := range steps {
				req, ok := step.bind(w.temps)
				if !ok {
					return
				}
				res := w.db.Write(req)
				if res.Error != nil {
					return
				}
				w.bindTemps(res)
			}
			w.data = w.all(w.read())
			add, del := delta(data, w.data)
			same = len(add)+len(del) == 0 && fmt.Sprint(w.temps) == fmt.Sprint(bound)
		})
		if msg != "" || same {
			break
		}
	}
	w.learn()
	return
}

func (w *world) bindTemps(res Response) {
	for t, id := range res.TempIDs {
		w.temps[string(t)] = id
	}
}
