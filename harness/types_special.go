package main

import "time"

// Struct types with particular shapes.

// spNode reaches itself in every way there is.
type spNode struct {
	ID    uint64             `attr:"sys/db/id"`
	Name  string             `attr:"sp/name,identity,ignoreempty"`
	Label string             `attr:"sp/label"`
	Next  *spNode            `attr:"sp/next"`
	Prev  *spNode            `attr:"sp/prev"`
	Kids  []spNode           `attr:"sp/kids"`
	Named map[string]*spNode `attr:"sp/named,key=sp/label"`
	ByID  map[uint64]spNode  `attr:"sp/by-id"`
}

// spFlat sees spNode's references as something else.
type spFlat struct {
	Next  spLeaf            `attr:"sp/next"`
	Prev  spLeaf            `attr:"sp/prev"`
	Kids  []spLeaf          `attr:"sp/kids"`
	Named map[string]spLeaf `attr:"sp/named,key=sp/label"`
	ID    uint64            `attr:"sys/db/id"`
}

type spLeaf struct {
	Label string  `attr:"sp/label"`
	Name  *string `attr:"sp/name,identity"`
	Next  *spNode `attr:"sp/next"`
}

// spDeep holds values in values.
type spDeep struct {
	A spDeep2 `attr:"sp/next"`
	B spDeep2 `attr:"sp/prev"`
}

type spDeep2 struct {
	Label string `attr:"sp/label"`
	A     spLeaf `attr:"sp/prev"`
	B     spLeaf `attr:"sp/next"`
}

// spPerson is the kind of thing the documentation has.
type spPerson struct {
	ID       uint64            `attr:"sys/db/id"`
	Name     string            `attr:"spp/name,identity"`
	Email    string            `attr:"spp/email,unique,ignoreempty"`
	Handle   *string           `attr:"spp/handle,unique"`
	Title    *string           `attr:"spp/title"`
	Nick     string            `attr:"spp/nick,ignoreempty"`
	Pets     int               `attr:"spp/pets,ignoreempty"`
	Score    float64           `attr:"spp/score"`
	Top      *float64          `attr:"spp/top"`
	Born     time.Time         `attr:"spp/born"`
	Died     *time.Time        `attr:"spp/died"`
	Alive    bool              `attr:"spp/alive,ignoreempty"`
	Boss     *spPerson         `attr:"spp/boss"`
	Tags     []string          `attr:"spp/tags,value=spp/tag"`
	Scores   []float64         `attr:"spp/scores,value=spp/sco"`
	Address  spAddress         `attr:"spp/address"`
	Pages    []spPage          `attr:"spp/pages"`
	ByName   map[string]spPage `attr:"spp/by-name,key=spp/page"`
	Untagged string
}

type spAddress struct {
	Street string  `attr:"spp/street,ignoreempty"`
	Zip    *int    `attr:"spp/zip"`
	Lat    float64 `attr:"spp/lat,ignoreempty"`
}

type spPage struct {
	Page   string    `attr:"spp/page"`
	Author *spPerson `attr:"spp/author"`
	Words  []int     `attr:"spp/words,value=spp/word"`
	Flags  []bool    `attr:"spp/flags,value=spp/flag"`
}

type spName struct {
	Name string `attr:"spp/name,identity"`
}

type spContact struct {
	ID     uint64  `attr:"sys/db/id"`
	Email  *string `attr:"spp/email,unique"`
	Handle string  `attr:"spp/handle,unique,ignoreempty"`
	Nick   string  `attr:"spp/nick"`
}

// Types that contradict one another.

type cfBase struct {
	ID  uint64   `attr:"sys/db/id"`
	Key string   `attr:"cf/key,identity"`
	A   string   `attr:"cf/a"`
	B   int      `attr:"cf/b"`
	C   *float64 `attr:"cf/c"`
	R   *cfBase  `attr:"cf/r"`
}

type cfType struct {
	Key string `attr:"cf/key,identity"`
	A   int    `attr:"cf/a"`
}

type cfUnique struct {
	Key string `attr:"cf/key,identity"`
	B   int    `attr:"cf/b,unique"`
}

type cfUnique2 struct {
	Key string `attr:"cf/key,unique"`
	A   string `attr:"cf/a"`
}

type cfMany struct {
	Key string   `attr:"cf/key,identity"`
	R   []cfLeaf `attr:"cf/r"`
}

type cfLeaf struct {
	A string `attr:"cf/a"`
}

type cfDeep struct {
	Key string  `attr:"cf/key,identity"`
	New string  `attr:"cf/new"`
	Bad *cfType `attr:"cf/r"`
}

// cfSelf contradicts itself.
type cfSelf struct {
	Key string `attr:"cf/key,identity"`
	X   string `attr:"cf/x"`
	Y   int    `attr:"cf/x"`
}

// cfLoose leaves out what cfBase says.
type cfLoose struct {
	Key string `attr:"cf/key"`
	B   *int   `attr:"cf/b"`
}

// Types that cannot be recorded.

type bdDirective struct {
	A string `attr:"bd/a,nothing"`
}
type bdIdent struct {
	A string `attr:",identity"`
}
type bdEmpty struct {
	A string `attr:""`
}
type bdTwice struct {
	A string `attr:"bd/a,identity,unique"`
}
type bdTwice2 struct {
	A string `attr:"bd/a,unique,unique"`
}
type bdChan struct {
	A chan int `attr:"bd/a"`
}
type bdFunc struct {
	A func() `attr:"bd/a"`
}
type bdInt32 struct {
	A int32 `attr:"bd/a"`
}
type bdUint struct {
	A uint `attr:"bd/a"`
}
type bdUint64 struct {
	A uint64 `attr:"bd/a"`
}
type bdFloat32 struct {
	A float32 `attr:"bd/a"`
}
type bdAny struct {
	A any `attr:"bd/a"`
}
type bdArray struct {
	A [2]string `attr:"bd/a"`
}
type bdComplex struct {
	A complex128 `attr:"bd/a"`
}
type bdPtrPtr struct {
	A **string `attr:"bd/a"`
}
type bdPtrSlice struct {
	A *[]string `attr:"bd/a"`
}
type bdPtrMap struct {
	A *map[string]bdOk `attr:"bd/a"`
}
type bdPtrInt8 struct {
	A *int8 `attr:"bd/a"`
}
type bdIDString struct {
	ID string `attr:"sys/db/id"`
	A  string `attr:"bd/ok"`
}
type bdIDInt struct {
	ID int    `attr:"sys/db/id"`
	A  string `attr:"bd/ok"`
}
type bdMapInt struct {
	A map[string]int `attr:"bd/a"`
}
type bdSliceNoValue struct {
	A []string `attr:"bd/a"`
}
type bdSlicePtr struct {
	A []*bdOk `attr:"bd/a"`
}
type bdSliceSlice struct {
	A [][]string `attr:"bd/a,value=bd/v"`
}
type bdSliceInt32 struct {
	A []int32 `attr:"bd/a,value=bd/v"`
}
type bdSliceStructValue struct {
	A []bdOk `attr:"bd/a,value=bd/v"`
}
type bdNested struct {
	Key string       `attr:"bd/key,identity"`
	B   *bdDirective `attr:"bd/b"`
}
type bdNested2 struct {
	Key string             `attr:"bd/key,identity"`
	B   map[string]bdInt32 `attr:"bd/b,key=bd/a"`
}
type bdNested3 struct {
	Key string      `attr:"bd/key,identity"`
	B   []bdMapInt  `attr:"bd/b"`
	C   bdSlicePtr  `attr:"bd/c"`
	D   *bdIDString `attr:"bd/d"`
}
type bdOk struct {
	A string `attr:"bd/ok"`
}

var specials = []universe{
	{"special", []*typeDesc{
		describe[spNode]("spNode", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "sp/name", "scalar", "str", "identity", true, "", ""},
			{2, "sp/label", "scalar", "str", "", false, "", ""},
			{3, "sp/next", "pstruct", "spNode", "", false, "", ""},
			{4, "sp/prev", "pstruct", "spNode", "", false, "", ""},
			{5, "sp/kids", "list", "spNode", "", false, "", ""},
			{6, "sp/named", "pmap", "spNode", "", false, "sp/label", ""},
			{7, "sp/by-id", "map", "spNode", "", false, "sys/db/id", ""},
		}),
		describe[spFlat]("spFlat", "", []fieldDesc{
			{0, "sp/next", "struct", "spLeaf", "", false, "", ""},
			{1, "sp/prev", "struct", "spLeaf", "", false, "", ""},
			{2, "sp/kids", "list", "spLeaf", "", false, "", ""},
			{3, "sp/named", "map", "spLeaf", "", false, "sp/label", ""},
			{4, "sys/db/id", "id", "", "", false, "", ""},
		}),
		describe[spLeaf]("spLeaf", "", []fieldDesc{
			{0, "sp/label", "scalar", "str", "", false, "", ""},
			{1, "sp/name", "pscalar", "str", "identity", false, "", ""},
			{2, "sp/next", "pstruct", "spNode", "", false, "", ""},
		}),
		describe[spDeep]("spDeep", "", []fieldDesc{
			{0, "sp/next", "struct", "spDeep2", "", false, "", ""},
			{1, "sp/prev", "struct", "spDeep2", "", false, "", ""},
		}),
		describe[spDeep2]("spDeep2", "", []fieldDesc{
			{0, "sp/label", "scalar", "str", "", false, "", ""},
			{1, "sp/prev", "struct", "spLeaf", "", false, "", ""},
			{2, "sp/next", "struct", "spLeaf", "", false, "", ""},
		}),
	}},
	{"person", []*typeDesc{
		describe[spPerson]("spPerson", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "spp/name", "scalar", "str", "identity", false, "", ""},
			{2, "spp/email", "scalar", "str", "unique", true, "", ""},
			{3, "spp/handle", "pscalar", "str", "unique", false, "", ""},
			{4, "spp/title", "pscalar", "str", "", false, "", ""},
			{5, "spp/nick", "scalar", "str", "", true, "", ""},
			{6, "spp/pets", "scalar", "int", "", true, "", ""},
			{7, "spp/score", "scalar", "float", "", false, "", ""},
			{8, "spp/top", "pscalar", "float", "", false, "", ""},
			{9, "spp/born", "scalar", "inst", "", false, "", ""},
			{10, "spp/died", "pscalar", "inst", "", false, "", ""},
			{11, "spp/alive", "scalar", "bool", "", true, "", ""},
			{12, "spp/boss", "pstruct", "spPerson", "", false, "", ""},
			{13, "spp/tags", "slist", "str", "", false, "", "spp/tag"},
			{14, "spp/scores", "slist", "float", "", false, "", "spp/sco"},
			{15, "spp/address", "struct", "spAddress", "", false, "", ""},
			{16, "spp/pages", "list", "spPage", "", false, "", ""},
			{17, "spp/by-name", "map", "spPage", "", false, "spp/page", ""},
		}),
		describe[spName]("spName", "", []fieldDesc{{0, "spp/name", "scalar", "str", "identity", false, "", ""}}),
		describe[spContact]("spContact", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "spp/email", "pscalar", "str", "unique", false, "", ""},
			{2, "spp/handle", "scalar", "str", "unique", true, "", ""},
			{3, "spp/nick", "scalar", "str", "", false, "", ""},
		}),
		describe[spAddress]("spAddress", "", []fieldDesc{
			{0, "spp/street", "scalar", "str", "", true, "", ""},
			{1, "spp/zip", "pscalar", "int", "", false, "", ""},
			{2, "spp/lat", "scalar", "float", "", true, "", ""},
		}),
		describe[spPage]("spPage", "", []fieldDesc{
			{0, "spp/page", "scalar", "str", "", false, "", ""},
			{1, "spp/author", "pstruct", "spPerson", "", false, "", ""},
			{2, "spp/words", "slist", "int", "", false, "", "spp/word"},
			{3, "spp/flags", "slist", "bool", "", false, "", "spp/flag"},
		}),
	}},
	twins,
	shapes,
	inner,
	{"conflicts", []*typeDesc{
		describe[cfBase]("cfBase", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "cf/key", "scalar", "str", "identity", false, "", ""},
			{2, "cf/a", "scalar", "str", "", false, "", ""},
			{3, "cf/b", "scalar", "int", "", false, "", ""},
			{4, "cf/c", "pscalar", "float", "", false, "", ""},
			{5, "cf/r", "pstruct", "cfBase", "", false, "", ""},
		}),
		describe[cfType]("cfType", "", []fieldDesc{
			{0, "cf/key", "scalar", "str", "identity", false, "", ""},
			{1, "cf/a", "scalar", "int", "", false, "", ""},
		}),
		describe[cfUnique]("cfUnique", "", []fieldDesc{
			{0, "cf/key", "scalar", "str", "identity", false, "", ""},
			{1, "cf/b", "scalar", "int", "unique", false, "", ""},
		}),
		describe[cfUnique2]("cfUnique2", "", []fieldDesc{
			{0, "cf/key", "scalar", "str", "unique", false, "", ""},
			{1, "cf/a", "scalar", "str", "", false, "", ""},
		}),
		describe[cfMany]("cfMany", "", []fieldDesc{
			{0, "cf/key", "scalar", "str", "identity", false, "", ""},
			{1, "cf/r", "list", "cfLeaf", "", false, "", ""},
		}),
		describe[cfLeaf]("cfLeaf", "", []fieldDesc{{0, "cf/a", "scalar", "str", "", false, "", ""}}),
		describe[cfDeep]("cfDeep", "", []fieldDesc{
			{0, "cf/key", "scalar", "str", "identity", false, "", ""},
			{1, "cf/new", "scalar", "str", "", false, "", ""},
			{2, "cf/r", "pstruct", "cfType", "", false, "", ""},
		}),
		describe[cfSelf]("cfSelf", "", []fieldDesc{
			{0, "cf/key", "scalar", "str", "identity", false, "", ""},
			{1, "cf/x", "scalar", "str", "", false, "", ""},
			{2, "cf/x", "scalar", "int", "", false, "", ""},
		}),
		describe[cfLoose]("cfLoose", "", []fieldDesc{
			{0, "cf/key", "scalar", "str", "", false, "", ""},
			{1, "cf/b", "pscalar", "int", "", false, "", ""},
		}),
		describe[bdDirective]("bdDirective", "model", nil),
		describe[bdIdent]("bdIdent", "model", nil),
		describe[bdEmpty]("bdEmpty", "model", nil),
		describe[bdTwice]("bdTwice", "model", nil),
		describe[bdTwice2]("bdTwice2", "model", nil),
		describe[bdChan]("bdChan", "model", nil),
		describe[bdFunc]("bdFunc", "model", nil),
		describe[bdInt32]("bdInt32", "model", nil),
		describe[bdUint]("bdUint", "model", nil),
		describe[bdUint64]("bdUint64", "model", nil),
		describe[bdFloat32]("bdFloat32", "model", nil),
		describe[bdAny]("bdAny", "model", nil),
		describe[bdArray]("bdArray", "model", nil),
		describe[bdComplex]("bdComplex", "model", nil),
		describe[bdPtrPtr]("bdPtrPtr", "model", nil),
		describe[bdPtrSlice]("bdPtrSlice", "model", nil),
		describe[bdPtrMap]("bdPtrMap", "model", nil),
		describe[bdPtrInt8]("bdPtrInt8", "model", nil),
		describe[bdIDString]("bdIDString", "id", nil),
		describe[bdIDInt]("bdIDInt", "id", nil),
		describe[bdMapInt]("bdMapInt", "coll", nil),
		describe[bdSliceNoValue]("bdSliceNoValue", "coll", nil),
		describe[bdSlicePtr]("bdSlicePtr", "coll", nil),
		describe[bdSliceSlice]("bdSliceSlice", "coll", nil),
		describe[bdSliceInt32]("bdSliceInt32", "coll", nil),
		describe[bdSliceStructValue]("bdSliceStructValue", "coll", nil),
		describe[bdNested]("bdNested", "coll", nil),
		describe[bdNested2]("bdNested2", "coll", nil),
		describe[bdNested3]("bdNested3", "coll", nil),
	}},
}

// conMark tells the states of a public database apart.
type conMark struct {
	ID   uint64 `attr:"sys/db/id"`
	Tick int    `attr:"conc/tick"`
}

var markDesc = describe[conMark]("conMark", "", []fieldDesc{
	{0, "sys/db/id", "id", "", "", false, "", ""},
	{1, "conc/tick", "scalar", "int", "", false, "", ""},
})
