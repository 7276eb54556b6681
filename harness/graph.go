package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/dball/destructive/internal/structs/assemblers"
	"github.com/dball/destructive/internal/structs/models"
	. "github.com/dball/destructive/internal/types"
	public "github.com/dball/destructive/pkg/database"
)

// fieldDesc describes a field of a struct type that is bound to an attribute.
type fieldDesc struct {
	index  int
	ident  string
	kind   string // id, scalar, pscalar, struct, pstruct, slist, list, map, pmap
	s      string // the type of scalars, the name of the type of structs
	unique string
	ie     bool
	key    string
	val    string
}

// typeDesc describes a struct type. The bad cannot be recorded.
type typeDesc struct {
	name     string
	bad      string
	typ      reflect.Type
	fields   []fieldDesc
	assemble func(a models.Analyzer, s Snapshot, id ID) (any, bool, error)
	find     func(s *public.Snapshot, id uint64) (any, bool, error)
	again    func(s *public.Snapshot) (func(id uint64) (any, bool), error)
}

type universe struct {
	style string
	types []*typeDesc
}

var descs = map[string]*typeDesc{}
var descOf = map[reflect.Type]*typeDesc{}

func describe[T any](name string, bad string, fields []fieldDesc) *typeDesc {
	d := &typeDesc{name: name, bad: bad, typ: reflect.TypeFor[T](), fields: fields}
	d.assemble = func(a models.Analyzer, s Snapshot, id ID) (any, bool, error) {
		x, err := assemblers.Assemble[T](assemblers.NewAssembler(a, s), id)
		say(err)
		return x, x != nil, err
	}
	d.find = func(s *public.Snapshot, id uint64) (any, bool, error) {
		ts, err := public.BuildTypedSnapshot[T](s)
		say(err)
		if err != nil {
			return nil, false, err
		}
		x := ts.Find(id)
		return x, x != nil, nil
	}
	d.again = func(s *public.Snapshot) (func(id uint64) (any, bool), error) {
		ts, err := public.BuildTypedSnapshot[T](s)
		say(err)
		if err != nil {
			return nil, err
		}
		return func(id uint64) (any, bool) {
			x := ts.Find(id)
			return x, x != nil
		}, nil
	}
	descs[name] = d
	descOf[d.typ] = d
	return d
}

func (d *typeDesc) field(kind string) (f fieldDesc, ok bool) {
	for _, f := range d.fields {
		if f.kind == kind {
			return f, true
		}
	}
	return
}

func (u universe) J() J {
	types := map[string]J{}
	for _, d := range u.types {
		fields := []J{}
		for _, f := range d.fields {
			fields = append(fields, ev{"i": f.ident, "k": f.kind, "s": f.s, "u": f.unique, "ie": f.ie, "key": f.key, "val": f.val})
		}
		types[d.name] = ev{"bad": d.bad, "f": fields}
	}
	return types
}

var nilJ = []J{"nil", 0}

// heap encodes instances of struct types as the specification has them: a sequence of nodes, each a struct
// instance, a slice or a map. Fields hold scalars, nothing, or the index of a node.
type heap struct {
	nodes []J
	seen  map[heapKey]int
	// input heaps distinguish every occurrence of a struct value, slice and map, as these are recorded.
	input bool
	insts []instance
}

type instance struct {
	k    int
	v    reflect.Value
	desc *typeDesc
	// refs is where fields lead to: by field index, then by position for slices.
	refs map[int][]int
	keys map[int][]J
	id   uint64
	vals map[int]J
}

type heapKey struct {
	addr uintptr
	n    int
	typ  reflect.Type
}

func newHeap(input bool) *heap {
	return &heap{seen: map[heapKey]int{}, input: input, nodes: []J{}}
}

func scalarJ(v reflect.Value) J {
	switch v.Kind() {
	case reflect.Bool:
		return []J{"v", rawJ(Bool(v.Bool()))}
	case reflect.Int:
		return []J{"v", rawJ(Int(v.Int()))}
	case reflect.String:
		return []J{"v", rawJ(String(v.String()))}
	case reflect.Float64:
		return []J{"v", rawJ(Float(v.Float()))}
	case reflect.Uint64:
		return []J{"v", []J{"id", idJ(ID(v.Uint()))}}
	case reflect.Struct:
		return []J{"v", rawJ(Inst(v.Interface().(time.Time)))}
	}
	panic("no scalar: " + v.Type().String())
}

func (h *heap) add() int {
	h.nodes = append(h.nodes, nil)
	return len(h.nodes)
}

// pointer encodes the struct a pointer points at.
func (h *heap) pointer(p reflect.Value) int {
	return h.instance(p.Elem(), true)
}

func (h *heap) instance(v reflect.Value, shared bool) int {
	desc := descOf[v.Type()]
	if desc == nil {
		panic("no description of " + v.Type().String())
	}
	if !v.CanAddr() {
		c := reflect.New(v.Type())
		c.Elem().Set(v)
		v = c.Elem()
	}
	key := heapKey{v.Addr().Pointer(), -1, v.Type()}
	if shared || !h.input {
		if k, ok := h.seen[key]; ok {
			return k
		}
	}
	k := h.add()
	if shared || !h.input {
		h.seen[key] = k
	}
	in := instance{k: k, v: v, desc: desc, refs: map[int][]int{}, keys: map[int][]J{}, vals: map[int]J{}}
	fields := []J{}
	for i, f := range desc.fields {
		x := v.Field(f.index)
		var j J
		switch f.kind {
		case "id":
			in.id = x.Uint()
			j = scalarJ(x)
		case "scalar":
			j = scalarJ(x)
			in.vals[i] = j
		case "pscalar":
			j = nilJ
			if !x.IsNil() {
				j = scalarJ(x.Elem())
				in.vals[i] = j
			}
		case "struct":
			n := h.instance(x, false)
			in.refs[i] = []int{n}
			j = []J{"at", n}
		case "pstruct":
			j = nilJ
			if !x.IsNil() {
				n := h.pointer(x)
				in.refs[i] = []int{n}
				j = []J{"at", n}
			}
		case "list", "slist":
			j = nilJ
			if !x.IsNil() {
				j = []J{"at", h.list(x, f, &in, i)}
			}
		case "map", "pmap":
			j = nilJ
			if !x.IsNil() {
				j = []J{"at", h.mapping(x, f, &in, i)}
			}
		}
		fields = append(fields, j)
	}
	h.nodes[k-1] = []J{"s", desc.name, fields}
	h.insts = append(h.insts, in)
	return k
}

func (h *heap) list(x reflect.Value, f fieldDesc, in *instance, i int) int {
	key := heapKey{x.Pointer(), x.Len(), x.Type()}
	if k, ok := h.seen[key]; ok && !h.input && x.Len() > 0 {
		return k
	}
	k := h.add()
	if !h.input && x.Len() > 0 {
		h.seen[key] = k
	}
	elems := []J{}
	for n := range x.Len() {
		if f.kind == "slist" {
			elems = append(elems, scalarJ(x.Index(n)))
		} else {
			e := h.instance(x.Index(n), false)
			in.refs[i] = append(in.refs[i], e)
			elems = append(elems, []J{"at", e})
		}
	}
	h.nodes[k-1] = []J{"l", "", elems}
	return k
}

func (h *heap) mapping(x reflect.Value, f fieldDesc, in *instance, i int) int {
	key := heapKey{x.Pointer(), -2, x.Type()}
	if k, ok := h.seen[key]; ok && !h.input {
		return k
	}
	k := h.add()
	if !h.input {
		h.seen[key] = k
	}
	elems := []J{}
	it := x.MapRange()
	for it.Next() {
		key := scalarJ(it.Key()).([]J)[1]
		v := it.Value()
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				elems = append(elems, []J{key, nilJ})
				continue
			}
			e := h.pointer(v)
			in.refs[i] = append(in.refs[i], e)
			elems = append(elems, []J{key, []J{"at", e}})
		} else {
			e := h.instance(v, false)
			in.refs[i] = append(in.refs[i], e)
			elems = append(elems, []J{key, []J{"at", e}})
		}
	}
	h.nodes[k-1] = []J{"m", "", elems}
	return k
}

// graphs makes random instances.
type graphs struct {
	r rng
	// fresh numbers values that have not been used.
	fresh int
	// used are values of unique attributes.
	used map[string][]any
	// ids are the entities known.
	ids []uint64
	// percentages
	share, reuse, withID, null, empty, depth int
	nils                                     int // of the entries of maps of pointers
	pool                                     map[reflect.Type][]reflect.Value
	budget, elems                            int
	big                                      bool
	// huge requests have collections of tens and hundreds, and long chains.
	huge bool
}

func (g *graphs) begin() {
	g.pool = map[reflect.Type][]reflect.Value{}
	g.budget = 14
	if g.big {
		g.budget, g.elems = 22, 40
	}
	if g.huge {
		g.budget, g.elems = 150, 400
	}
}

// scalar chooses a value for a field.
func (g *graphs) scalar(f fieldDesc) any {
	r := g.r
	if f.unique != "" {
		k := f.ident + " " + f.s
		if len(g.used[k]) > 0 && r.chance(g.reuse) {
			return pick(r, g.used[k])
		}
		if g.huge || !r.chance(g.empty/6+1) {
			g.fresh++
			var v any
			switch f.s {
			case "str":
				v = fmt.Sprintf("k%d", g.fresh)
			case "int":
				v = 1000 + g.fresh
			case "float":
				v = float64(g.fresh) + 0.5
			case "inst":
				v = time.UnixMilli(1700000000000 + int64(g.fresh)).In(pick(r, zones))
			default:
				v = r.chance(50)
			}
			g.used[k] = append(g.used[k], v)
			return v
		}
		v := g.zero(f.s)
		g.used[k] = append(g.used[k], v)
		return v
	}
	if r.chance(g.empty) {
		return g.zero(f.s)
	}
	switch f.s {
	case "str":
		return strVal(pick(r, strTokens))
	case "int":
		return int(pick(r, intVals))
	case "float":
		if r.chance(5) {
			return math.Copysign(0, -1)
		}
		return pick(r, floatVals).val
	case "inst":
		t := time.UnixMilli(pick(r, instVals)).In(pick(r, zones))
		if r.chance(20) {
			t = t.Add(time.Duration(r.IntN(999999)))
		}
		if t.UnixMilli() == instVals[0] {
			return time.Time{} // whatever the zone and the nanoseconds, so that emptiness is unambiguous
		}
		return t
	}
	return r.chance(50)
}

func (g *graphs) zero(s string) any {
	switch s {
	case "str":
		return ""
	case "int":
		return 0
	case "float":
		return float64(0)
	case "inst":
		return time.Time{}
	}
	return false
}

func set(dst reflect.Value, v any) { dst.Set(reflect.ValueOf(v).Convert(dst.Type())) }

// pointer makes an instance, or takes one made before.
func (g *graphs) pointer(d *typeDesc, depth int) reflect.Value {
	if pool := g.pool[d.typ]; len(pool) > 0 && (g.r.chance(g.share) || g.budget <= 0) {
		return pick(g.r, pool)
	}
	p := reflect.New(d.typ)
	g.pool[d.typ] = append(g.pool[d.typ], p)
	g.fill(d, p.Elem(), depth)
	return p
}

// alias has pointers point, perhaps, into a struct or slice that holds a struct by value.
func (g *graphs) alias(v reflect.Value) {
	if v.CanAddr() && !g.huge && g.r.chance(35) {
		g.pool[v.Type()] = append(g.pool[v.Type()], v.Addr())
	}
}

func (g *graphs) fill(d *typeDesc, v reflect.Value, depth int) {
	r := g.r
	g.budget--
	more := func(pct int) bool { return depth > 0 && g.budget > 0 && r.chance(pct) }
	byIdent := map[string]any{}
	// Scalars first, so that the keys of instances on cycles are there when they are needed.
	for _, f := range d.fields {
		x := v.Field(f.index)
		switch f.kind {
		case "id":
			if len(g.ids) > 0 && r.chance(g.withID) {
				x.SetUint(pick(r, g.ids))
			}
		case "scalar", "pscalar":
			if f.kind == "pscalar" && r.chance(g.null) {
				continue
			}
			val, again := byIdent[f.ident+" "+f.s]
			if !again || r.chance(3) {
				val = g.scalar(f)
				byIdent[f.ident+" "+f.s] = val
			}
			if f.kind == "pscalar" {
				x.Set(reflect.New(x.Type().Elem()))
				x = x.Elem()
			}
			set(x, val)
		}
	}
	for _, f := range d.fields {
		x := v.Field(f.index)
		switch f.kind {
		case "struct":
			g.fill(descs[f.s], x, depth-1)
			g.alias(x)
		case "pstruct":
			if more(100-g.null) || len(g.pool[descs[f.s].typ]) > 0 && r.chance(g.share) {
				x.Set(g.pointer(descs[f.s], depth-1))
			}
		case "slist":
			n := pick(r, []int{0, 0, 1, 2, 3, 12})
			if g.big {
				n = pick(r, []int{0, 5, 11, 23})
				if g.huge {
					n = pick(r, []int{0, 33, 65, 130, 260})
				}
				if g.elems -= n; g.elems < 0 {
					n = 0
				}
			} else if n == 12 && !r.chance(20) {
				n = 4
			}
			if n == 0 && r.chance(50) {
				continue
			}
			x.Set(reflect.MakeSlice(x.Type(), n, n+r.IntN(3)))
			for i := range n {
				set(x.Index(i), g.scalar(fieldDesc{s: f.s}))
			}
		case "list":
			n := g.size()
			if !more(70) {
				n = 0
			}
			if n == 0 && r.chance(50) {
				continue
			}
			x.Set(reflect.MakeSlice(x.Type(), n, n+r.IntN(3)))
			for i := range n {
				g.fill(descs[f.s], x.Index(i), depth-1)
				g.alias(x.Index(i))
			}
		case "map", "pmap":
			n := g.size()
			if !more(70) {
				n = 0
			}
			if n == 0 && r.chance(50) {
				continue
			}
			x.Set(reflect.MakeMap(x.Type()))
			child := descs[f.s]
			for range n {
				var p reflect.Value
				if f.kind == "pmap" {
					p = g.pointer(child, depth-1)
				} else {
					p = reflect.New(child.typ)
					g.fill(child, p.Elem(), depth-1)
				}
				key := reflect.New(x.Type().Key()).Elem()
				ok := false
				for _, cf := range child.fields {
					if cf.ident == f.key && cf.kind == "scalar" {
						kv := p.Elem().Field(cf.index)
						key.Set(kv.Convert(key.Type()))
						ok = true
						break
					}
				}
				if f.key == "sys/db/id" {
					cf, _ := child.field("id")
					id := p.Elem().Field(cf.index).Uint()
					if id == 0 {
						g.fresh++
						id = uint64(g.fresh)
					}
					key.SetUint(id)
					ok = true
				}
				if !ok {
					panic("no key for " + f.ident)
				}
				if isNaN(key) {
					continue
				}
				if x.MapIndex(key).IsValid() {
					continue
				}
				if f.kind == "pmap" && r.chance(g.nils) {
					x.SetMapIndex(key, reflect.Zero(p.Type()))
				} else if f.kind == "pmap" {
					x.SetMapIndex(key, p)
				} else {
					x.SetMapIndex(key, p.Elem())
				}
			}
		}
	}
}

// size is that of a collection of structs.
func (g *graphs) size() int {
	if g.huge && g.r.chance(60) {
		n := min(17+g.r.IntN(60), max(g.budget, 0))
		g.budget -= n
		return n
	}
	if g.big && g.r.chance(60) {
		return 8 + g.r.IntN(8)
	}
	return g.r.IntN(4)
}

func isNaN(v reflect.Value) bool { return v.Kind() == reflect.Float64 && math.IsNaN(v.Float()) }
