package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	. "github.com/dball/destructive/internal/types"
)

// J is a json value.
type J = any

// The tokens of each type, in the order the specification (Values.tla) lists them.

var strTokens = []string{"~empty", "~nul", "~space", "A", "Ab", "B", "a", "~aspace", "ab", "b", "c",
	"~ecomb", "~long", "~longb", "zz", "~eacute", "~cjk", "~bad"}

// Strings that are nearly the same.
var alikeTokens = []string{"~long", "~longb", "a", "~aspace", "A", "~eacute", "~ecomb", "~empty", "~nul"}

var strSpecials = map[string]string{
	"~empty": "", "~nul": "\x00", "~space": " ", "~long": strings.Repeat("long", 300), "~longb": strings.Repeat("long", 300) + "b",
	"~aspace": "a ", "~ecomb": "e\u0301",
	"~eacute": "é", "~cjk": "漢字", "~bad": "\xff\xfe",
}

var strNames = map[string]string{}

func init() {
	for k, v := range strSpecials {
		strNames[v] = k
	}
}

func strVal(tok string) string {
	if s, ok := strSpecials[tok]; ok {
		return s
	}
	return tok
}

func strTok(s string) string {
	if t, ok := strNames[s]; ok {
		return t
	}
	return s
}

var intVals = []int64{math.MinInt64, -9007199254740993, -7, -1, 0, 1, 2, 3, 4, 5, 7, 40, 4294967296, 9007199254740993, math.MaxInt64}

// The integers from crowdBase are for the entities that have a great many.
const crowdBase, crowdSize = 1000, 600

func intTok(i int64) string { return fmt.Sprintf("%d", i) }

type floatVal struct {
	tok string
	val float64
}

var floatVals = []floatVal{
	{"NaN", math.NaN()}, {"-Inf", math.Inf(-1)}, {"-1e+308", -1e308}, {"-1.5", -1.5}, {"-0.1", -0.1},
	{"-5e-324", -math.SmallestNonzeroFloat64}, {"0", 0}, {"5e-324", math.SmallestNonzeroFloat64},
	{"0.1", 0.1}, {"1.5", 1.5}, {"1e+308", 1e308}, {"+Inf", math.Inf(1)},
}

func floatTok(f float64) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case f == 0:
		return "0"
	}
	for _, fv := range floatVals {
		if fv.val == f {
			return fv.tok
		}
	}
	return fmt.Sprintf("?%v", f)
}

// Milliseconds since the epoch.
var instVals = []int64{-62135596800000, -1000, -1, 0, 1, 1666000000123, 253402300799999}

func instTok(t time.Time) string { return fmt.Sprintf("%d", t.UnixMilli()) }

func instOf(ms int64) Inst { return Inst(time.UnixMilli(ms).UTC()) }

const bigID = 1 << 30

// Identifiers in the specification are small integers.
func idJ(id ID) int {
	if id > bigID {
		return bigID
	}
	return int(id)
}

// valJ encodes a value as the specification has it.
func valJ(v any) J {
	switch x := v.(type) {
	case nil:
		return []J{"nil", 0}
	case ID:
		return []J{"id", idJ(x)}
	case String:
		return []J{"str", strTok(string(x))}
	case Int:
		return []J{"int", intTok(int64(x))}
	case Bool:
		return []J{"bool", fmt.Sprintf("%v", bool(x))}
	case Inst:
		return []J{"inst", instTok(time.Time(x))}
	case Float:
		return []J{"float", floatTok(float64(x))}
	}
	return []J{"alien", fmt.Sprintf("%T", v)}
}

// rawJ encodes a value as given in a request or a query, with the variant of its representation.
func rawJ(v any) J {
	j := valJ(v).([]J)
	switch x := v.(type) {
	case Inst:
		t := time.Time(x)
		if t.Nanosecond()%1000000 != 0 {
			return append(j, "s")
		}
		if t.Location() != time.UTC {
			return append(j, "z")
		}
	case Float:
		if float64(x) == 0 && math.Signbit(float64(x)) {
			return append(j, "neg")
		}
	}
	return j
}

// refJ encodes the references and values of claims.
func refJ(r any) J {
	switch x := r.(type) {
	case nil:
		return []J{"nil", 0}
	case ID:
		return []J{"id", idJ(x)}
	case Ident:
		return []J{"ident", strTok(string(x))}
	case LookupRef:
		return []J{"lookup", refJ(x.A), refJ(x.V)}
	case TempID:
		return []J{"temp", string(x)}
	case TxnID:
		return []J{"txn", 0}
	case String, Int, Bool, Inst, Float:
		return rawJ(x)
	}
	return []J{"bad", fmt.Sprintf("%T", r)}
}

func datumJ(d Datum) J { return []J{idJ(d.E), idJ(d.A), valJ(d.V), idJ(d.T)} }

// A foreign type that satisfies the reference and value interfaces.
type alien string

func (alien) IsERef()        {}
func (alien) IsIDRef()       {}
func (alien) IsVRef()        {}
func (alien) IsZero() bool   { return false }
func (alien) String() string { return "alien" }

var zones = []*time.Location{time.UTC, time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -9*3600)}

// checkPools verifies that the values of the tokens are in their natural order.
func checkPools() {
	for i := 1; i < len(strTokens); i++ {
		if !(strVal(strTokens[i-1]) < strVal(strTokens[i])) {
			panic("strings out of order at " + strTokens[i])
		}
	}
	for i := 1; i < len(intVals); i++ {
		if !(intVals[i-1] < intVals[i]) {
			panic("ints out of order")
		}
	}
	for i := 2; i < len(floatVals); i++ {
		if !(floatVals[i-1].val < floatVals[i].val) {
			panic("floats out of order")
		}
	}
	for i := 1; i < len(instVals); i++ {
		if !(instVals[i-1] < instVals[i]) {
			panic("insts out of order")
		}
	}
}
