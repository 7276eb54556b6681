package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/structs/models"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// smallStructs is a small world of structs of the specification (SThemes.tla).
type smallStructs struct {
	Types    map[string]J
	Order    []string
	Setup    []smallGraph
	Requests []smallGraph
}

type smallGraph struct {
	Heap   [][]J
	As, Rs [][]J
	Names  []string
}

// builder makes the instances of a heap.
type builder struct {
	heap  [][]J
	names map[string]ID
	made  map[int]reflect.Value
}

func (b *builder) scalar(j J, typ reflect.Type) reflect.Value {
	v := denote(j, b.names)
	x := reflect.New(typ).Elem()
	switch v := v.(type) {
	case Inst:
		panic("no instants in small worlds")
	default:
		x.Set(reflect.ValueOf(v).Convert(typ))
	}
	return x
}

// instance is a pointer to the struct of a node, always the same.
func (b *builder) instance(n int) reflect.Value {
	if p, ok := b.made[n]; ok {
		return p
	}
	node := b.heap[n-1]
	desc := descs[node[1].(string)]
	p := reflect.New(desc.typ)
	b.made[n] = p
	for i, j := range node[2].([]J) {
		b.fill(p.Elem().Field(desc.fields[i].index), desc.fields[i], j.([]J))
	}
	return p
}

func at(j J) int { return int(j.([]J)[1].(float64)) }

func (b *builder) fill(x reflect.Value, f fieldDesc, j []J) {
	if j[0] == "nil" {
		return
	}
	switch f.kind {
	case "id", "scalar":
		x.Set(b.scalar(j[1], x.Type()))
	case "pscalar":
		p := reflect.New(x.Type().Elem())
		p.Elem().Set(b.scalar(j[1], x.Type().Elem()))
		x.Set(p)
	case "struct":
		x.Set(b.instance(at(j)).Elem())
	case "pstruct":
		x.Set(b.instance(at(j)))
	case "slist", "list":
		elems := b.heap[at(j)-1][2].([]J)
		s := reflect.MakeSlice(x.Type(), 0, len(elems))
		for _, e := range elems {
			if f.kind == "slist" {
				s = reflect.Append(s, b.scalar(e.([]J)[1], x.Type().Elem()))
			} else {
				s = reflect.Append(s, b.instance(at(e)).Elem())
			}
		}
		x.Set(s)
	case "map", "pmap":
		m := reflect.MakeMap(x.Type())
		for _, e := range b.heap[at(j)-1][2].([]J) {
			key := b.scalar(e.([]J)[0], x.Type().Key())
			v := reflect.Zero(x.Type().Elem())
			if to := e.([]J)[1].([]J); to[0] == "at" {
				v = b.instance(at(to))
				if f.kind == "map" {
					v = v.Elem()
				}
			}
			m.SetMapIndex(key, v)
		}
		x.Set(m)
	}
}

func (b *builder) parts(js [][]J, r rng) (xs []any) {
	for _, j := range js {
		p := b.instance(at([]J(j)))
		// A struct that is not pointed at is the same as a pointer to it.
		if r.chance(50) && len(js) == 1 && !b.pointed(at([]J(j))) {
			xs = append(xs, p.Elem().Interface())
		} else {
			xs = append(xs, p.Interface())
		}
	}
	return
}

// pointed says whether anything leads to a node.
func (b *builder) pointed(n int) bool {
	var leads func(j J) bool
	leads = func(j J) bool {
		js, ok := j.([]J)
		if !ok {
			return false
		}
		if len(js) == 2 && js[0] == "at" {
			return at(js) == n
		}
		for _, x := range js {
			if leads(x) {
				return true
			}
		}
		return false
	}
	for _, node := range b.heap {
		if leads(node[2]) {
			return true
		}
	}
	return false
}

func (s *sworld) small(g smallGraph, names map[string]ID) (as, rs []any) {
	b := &builder{heap: g.Heap, names: names, made: map[int]reflect.Value{}}
	return b.parts(g.As, s.r), b.parts(g.Rs, s.r)
}

func runSReplay(s *sink, r rng, theme, worldPath, planPath string, run func(h *history, r rng, sw *smallStructs, u universe, e errand) errand) {
	var sw smallStructs
	b, err := os.ReadFile(worldPath)
	if err == nil {
		err = json.Unmarshal(b, &sw)
	}
	if err != nil {
		panic(err)
	}
	u := smalls[theme]
	mine, _ := json.Marshal(u.J())
	var told J
	if err := json.Unmarshal(mine, &told); err != nil {
		panic(err)
	}
	mine, _ = json.Marshal(told)
	theirs, _ := json.Marshal(sw.Types)
	if string(mine) != string(theirs) {
		panic("the types of the small world are not those of the specification:\n" + string(mine) + "\n" + string(theirs))
	}
	f, err := os.Open(planPath)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	lines := bufio.NewScanner(f)
	lines.Buffer(nil, 1<<26)
	for n := 0; lines.Scan(); n++ {
		if strings.TrimSpace(lines.Text()) == "" {
			continue
		}
		var e errand
		if err := json.Unmarshal(lines.Bytes(), &e); err != nil {
			panic(err)
		}
		for len(e.Requests) > 0 {
			h := &history{Mode: "sreplay", Seed: fmt.Sprintf("sreplay/%s/%v/%d", theme, e.Path, n)}
			e = run(h, r, &sw, u, e)
			s.put(h)
		}
	}
}

// runSErrand does as much of the errand as one history can show, and returns what is left to do.
func runSErrand(h *history, r rng, sw *smallStructs, u universe, e errand) errand {
	w := newWorld(r, h, profile{})
	s := &sworld{world: w, g: newGraphs(r, sprofile{}), u: u, quiet: true, sp: sprofile{mutate: 10}}
	open := func() []Datum {
		w.db = database.NewIndexDatabase(pick(r, []int{2, 3, 64}), 0, 0)
		w.read = w.db.Read
		s.analyzer = models.BuildCachingAnalyzer()
		s.latest = w.db.Read()
		return w.all(s.latest)
	}
	nothing := errand{Path: e.Path}
	init := ev{"k": "init", "types": u.J(), "panic": "", "data": []J{}, "hw": int(w.hw)}
	init["panic"] = h.guard(func() {
		w.data = open()
		init["data"] = datumsJ(w.data)
	})
	h.add(init)
	if init["panic"] != "" {
		return nothing
	}
	names := map[string]ID{}
	// prepare records what comes before the requests of the errand.
	prepare := func() bool {
		for _, t := range sw.Order {
			if !s.schema(descs[t].typ) {
				return false
			}
		}
		for i, g := range append(append([]smallGraph{}, sw.Setup...), pickAll(sw.Requests, e.Path)...) {
			as, rs := s.small(g, names)
			found, ok := s.request(as, rs)
			if !ok || h.hung {
				return false
			}
			if i < len(sw.Setup) {
				for k, name := range g.Names {
					names[name] = found[k]
				}
			}
		}
		return true
	}
	if !prepare() {
		return nothing // which the specification has something to say about, if it should not be
	}
	h.add(ev{"k": "mark"})
	data, hw, bound := w.data, w.hw, fmt.Sprint(names)
	s.findAll(nil)
	for len(e.Requests) > 0 {
		as, rs := s.small(sw.Requests[e.Requests[0]-1], names)
		e.Requests = e.Requests[1:]
		found, ok := s.request(as, rs)
		if h.hung {
			return nothing
		}
		if !ok && h.Events[len(h.Events)-1]["panic"] == "" {
			continue // the state is the same
		}
		s.findAll(found)
		if len(e.Requests) == 0 {
			break
		}
		// The database is made anew, from the same requests, unremarked.
		same := false
		events := h.Events
		for range 4 {
			h.Events = append([]ev{}, events...)
			msg := h.guard(func() {
				w.data, w.hw = open(), 0
				same = prepare()
			})
			if msg != "" || h.hung {
				h.Events = events
				return e
			}
			add, del := delta(data, w.data)
			same = same && len(add)+len(del) == 0 && fmt.Sprint(names) == bound
			if same {
				break
			}
		}
		h.Events = events
		if !same {
			return e
		}
		w.hw = hw
		h.add(ev{"k": "back", "hw": int(hw)})
	}
	return nothing
}

func pickAll(gs []smallGraph, ns []int) (some []smallGraph) {
	for _, n := range ns {
		some = append(some, gs[n-1])
	}
	return
}

// findAll finds entities as types: those recorded, and a few others.
func (s *sworld) findAll(found []ID) {
	seen := map[ID]bool{}
	var es []ID
	for _, d := range s.data {
		if d.A >= sys.FirstUserID && !seen[d.E] {
			seen[d.E] = true
			es = append(es, d.E)
		}
	}
	s.r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	if len(es) > 4 {
		es = es[:4]
	}
	for _, e := range append(append([]ID{}, found...), es...) {
		s.findAs(0, s.latest, pick(s.r, s.u.types), uint64(e))
	}
	for _, e := range found {
		for _, d := range s.u.types {
			s.findAs(0, s.latest, d, uint64(e))
		}
	}
}
