package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	. "github.com/dball/destructive/internal/types"
)

// lend copies the request, into memory of which it is not to use the rest. What is returned tells
// if all of it is as it was.
func lend(r rng, req Request) (lent Request, kept func() bool) {
	spare := r.IntN(6)
	n := len(req.Claims)
	all := make([]Claim, n+spare)
	copy(all, req.Claims)
	for i := range spare {
		all[n+i] = Claim{E: ID(7), A: Ident("spare"), V: Int(i)}
	}
	if n > 0 || req.Claims != nil {
		lent.Claims = all[:n]
	}
	m := len(req.Retractions)
	rets := make([]Retraction, m+spare)
	for i, ret := range req.Retractions {
		if ret.Constraints != nil {
			rets[i].Constraints = map[IDRef]Void{}
		}
		for k := range ret.Constraints {
			rets[i].Constraints[k] = Void{}
		}
	}
	for i := range spare {
		rets[m+i].Constraints = map[IDRef]Void{Ident("spare"): {}, ID(i): {}}
	}
	if m > 0 || req.Retractions != nil {
		lent.Retractions = rets[:m]
	}
	before := fmt.Sprintf("%v %v", all, rets)
	kept = func() bool { return before == fmt.Sprintf("%v %v", all, rets) }
	return
}

// spoil overwrites the request.
func spoil(req Request) {
	for i := range req.Claims {
		req.Claims[i] = Claim{E: ID(4), A: ID(5), V: String("spoilt"), Retract: i%2 == 0}
	}
	for _, ret := range req.Retractions {
		for k := range ret.Constraints {
			delete(ret.Constraints, k)
		}
		if ret.Constraints != nil {
			ret.Constraints[Ident("spoilt")] = Void{}
		}
	}
}

// lendParts is lend for structs, which it does not copy.
func lendParts(r rng, as, rs []any) (las, lrs []any, kept func() bool) {
	spare := r.IntN(3)
	part := func(xs []any) (lent []any, all []any) {
		all = make([]any, len(xs)+spare)
		copy(all, xs)
		for i := range spare {
			all[len(xs)+i] = fmt.Sprint("spare", i)
		}
		if xs != nil {
			lent = all[:len(xs)]
		}
		return
	}
	las, allAs := part(as)
	lrs, allRs := part(rs)
	before := imprint(allAs, allRs)
	kept = func() bool { return before == imprint(allAs, allRs) }
	return
}

// remember keeps parts of a response to see that they stay as they are.
func (h *history) remember(xs ...any) {
	h.past = append(h.past, xs...)
	if n := len(h.past); n > 12 {
		h.past = append([]any{}, h.past[n-12:]...)
	}
}

// watch returns what tells if the remembered parts of responses are as they are now.
func (h *history) watch() (same func() bool) {
	before := imprint(h.past...)
	return func() bool { return before == imprint(h.past...) }
}

// imprint tells everything about the values: their contents, their sharing and the spare capacity of slices.
func imprint(xs ...any) string {
	var b strings.Builder
	seen := map[heapKey]int{}
	for _, x := range xs {
		imprintValue(&b, reflect.ValueOf(x), seen)
	}
	return b.String()
}

func imprintValue(b *strings.Builder, v reflect.Value, seen map[heapKey]int) {
	if !v.IsValid() {
		b.WriteString("nil;")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(b, "%v;", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d;", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%d;", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v;", v.Float())
	case reflect.String:
		fmt.Fprintf(b, "%q;", v.String())
	case reflect.Interface:
		if !v.IsNil() {
			b.WriteString(v.Elem().Type().String())
		}
		imprintValue(b, v.Elem(), seen)
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		key := heapKey{v.Pointer(), -1, v.Type()}
		if n, ok := seen[key]; ok {
			fmt.Fprintf(b, "@%d;", n)
			return
		}
		seen[key] = len(seen)
		b.WriteString("*")
		imprintValue(b, v.Elem(), seen)
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		fmt.Fprintf(b, "%d[", v.Len())
		whole := v.Slice(0, v.Cap())
		for i := range whole.Len() {
			imprintValue(b, whole.Index(i), seen)
		}
		b.WriteString("]")
	case reflect.Array:
		for i := range v.Len() {
			imprintValue(b, v.Index(i), seen)
		}
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		keys := v.MapKeys()
		names := make([]string, len(keys))
		order := make([]int, len(keys))
		for i, k := range keys {
			var kb strings.Builder
			imprintValue(&kb, k, seen)
			names[i], order[i] = kb.String(), i
		}
		sort.Slice(order, func(i, j int) bool { return names[order[i]] < names[order[j]] })
		b.WriteString("{")
		for _, i := range order {
			b.WriteString(names[i])
			imprintValue(b, v.MapIndex(keys[i]), seen)
		}
		b.WriteString("}")
	case reflect.Struct:
		if v.Type() == TimeType {
			if v.CanInterface() {
				fmt.Fprintf(b, "%s;", v.Interface().(time.Time).Format(time.RFC3339Nano))
			}
			return
		}
		b.WriteString("(")
		for i := range v.NumField() {
			imprintValue(b, v.Field(i), seen)
		}
		b.WriteString(")")
	default:
		b.WriteString(v.Kind().String() + ";")
	}
}
