package main

var everything = map[string]int{"plain": 10, "many": 10, "replace": 6, "reassert": 4, "retract": 6, "cardone": 3,
	"identity": 8, "idmix": 4, "value": 6, "temps": 5, "declare": 3, "badattr": 2, "redeclare": 2, "attrchange": 2,
	"sys": 2, "sysident": 1, "idents": 6, "badref": 3, "badval": 3, "entity": 5, "badret": 2, "txn": 3, "late": 3,
	"refs": 5, "malformed": 1, "empty": 1, "aftermath": 1, "names": 4, "chain": 1}

// with is everything, with other weights for some.
func with(more map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range everything {
		m[k] = v
	}
	for k, v := range more {
		m[k] += v
	}
	return m
}

var profiles = map[string]profile{
	"all": {mix: everything, events: 60, writes: 60, keep: 20, odd: 12, notAttr: 4, attrs: 8},
	"atomic": {mix: with(map[string]int{"aftermath": 25, "late": 60, "badref": 15, "badval": 15, "badret": 20, "badattr": 10, "attrchange": 8, "sys": 8, "cardone": 8, "malformed": 8, "entity": 10}),
		events: 50, writes: 75, keep: 20, odd: 8, notAttr: 3, attrs: 8},
	"snapshots": {mix: with(map[string]int{"declare": 8, "entity": 6, "idents": 10, "replace": 10}),
		events: 90, writes: 40, keep: 50, odd: 8, notAttr: 3, attrs: 5},
	"effects": {mix: with(map[string]int{"replace": 15, "reassert": 20, "retract": 20, "many": 15, "txn": 8}),
		events: 60, writes: 75, keep: 10, odd: 5, notAttr: 2, attrs: 9},
	"cardinality": {mix: with(map[string]int{"replace": 30, "cardone": 30, "many": 20, "reassert": 10}),
		events: 60, writes: 75, keep: 10, odd: 5, notAttr: 2, attrs: 10, must: []string{"f/one", "i/one", "t/one", "s/id"}},
	"unique": {mix: with(map[string]int{"aftermath": 4, "identity": 30, "idmix": 15, "value": 40, "idents": 10, "refs": 5}),
		events: 60, writes: 80, keep: 10, odd: 5, notAttr: 2, attrs: 9, must: []string{"s/id", "s/val", "i/val", "r/id", "f/id"}},
	"temps": {mix: with(map[string]int{"identity": 40, "idmix": 40, "chain": 15, "temps": 20, "value": 8, "idents": 8}),
		events: 60, writes: 85, keep: 8, odd: 5, notAttr: 2, attrs: 9, must: []string{"s/id", "r/id", "i/id", "r/one", "r/many", "t/id"}},
	"ids": {mix: with(map[string]int{"aftermath": 6, "temps": 20, "late": 15, "txn": 10, "entity": 10, "identity": 10, "empty": 4, "cardone": 6}),
		events: 60, writes: 90, keep: 8, odd: 5, notAttr: 2, attrs: 7, must: []string{"s/id", "r/one"}},
	"types": {mix: with(map[string]int{"aftermath": 6, "badval": 60, "badref": 8, "badattr": 4}),
		events: 60, writes: 80, keep: 8, odd: 10, notAttr: 5, attrs: 9, must: []string{"r/one", "s/one"}},
	"schema": {mix: with(map[string]int{"aftermath": 10, "declare": 20, "badattr": 30, "redeclare": 25, "attrchange": 30, "late": 6}),
		events: 60, writes: 85, keep: 8, odd: 5, notAttr: 5, attrs: 4},
	"system": {mix: with(map[string]int{"sys": 50, "sysident": 25, "badret": 6, "badattr": 6, "idents": 6}),
		events: 50, writes: 85, keep: 8, odd: 5, notAttr: 2, attrs: 6},
	"idents": {mix: with(map[string]int{"aftermath": 6, "idents": 70, "entity": 15, "declare": 8, "redeclare": 6, "badattr": 8, "late": 8}),
		events: 60, writes: 80, keep: 20, odd: 8, notAttr: 2, attrs: 4},
	"queries": {mix: with(map[string]int{"many": 15, "entity": 3}),
		events: 110, writes: 35, keep: 15, odd: 8, notAttr: 5, attrs: 11},
	"queryrefs": {mix: with(map[string]int{"idents": 15, "many": 8}),
		events: 110, writes: 30, keep: 15, odd: 55, notAttr: 8, attrs: 9, must: []string{"s/id", "r/id", "s/val", "r/one", "t/id"}},
	"claimrefs": {mix: with(map[string]int{"names": 40, "refs": 50, "badref": 40, "txn": 20, "idents": 10}),
		events: 60, writes: 85, keep: 8, odd: 5, notAttr: 2, attrs: 9, must: []string{"s/id", "r/id", "s/val", "r/one", "r/many", "t/id"}},
	"entities": {mix: with(map[string]int{"entity": 60, "badret": 25, "temps": 10, "idents": 8}),
		events: 60, writes: 80, keep: 20, odd: 5, notAttr: 2, attrs: 9, must: []string{"s/id", "r/one", "r/many", "s/val"}},
	"values": {mix: with(map[string]int{"replace": 20, "reassert": 20, "retract": 20, "many": 25, "value": 10, "identity": 8}),
		events: 80, writes: 60, keep: 10, odd: 8, notAttr: 2, attrs: 12, must: []string{"f/one", "f/many", "f/id", "t/one", "t/id", "i/one", "f/val", "t/val"}},
	"bulk": {mix: with(map[string]int{"bulk": 70, "entity": 25, "replace": 10, "retract": 10}),
		events: 24, writes: 60, keep: 30, odd: 5, notAttr: 2, attrs: 7, must: []string{"r/many", "s/one", "i/one", "s/id", "t/many"}},
	"crowd": {mix: map[string]int{"crowd": 50, "entity": 50, "replace": 15, "retract": 15},
		events: 12, writes: 55, keep: 30, odd: 5, notAttr: 2, attrs: 3, must: []string{"r/many", "i/many"}},
	"wide": {mix: with(map[string]int{"throng": 100, "idents": 10, "replace": 15}),
		events: 30, writes: 60, keep: 30, odd: 20, notAttr: 2, attrs: 3},
	"long": {mix: with(map[string]int{"entity": 50, "replace": 10, "idents": 8, "names": 4}),
		events: 1000, writes: 70, keep: 10, odd: 8, notAttr: 3, attrs: 8, must: []string{"s/id", "r/one", "s/val", "r/many"}},
	"malformed": {mix: with(map[string]int{"malformed": 60, "badval": 15, "badref": 15, "badret": 10}),
		events: 60, writes: 60, keep: 8, odd: 50, notAttr: 10, attrs: 8},
}
