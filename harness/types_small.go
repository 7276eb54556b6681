package main

// Struct types of the small worlds of the specification (SThemes.tla), which describes them as well.

type smLink struct {
	ID   uint64  `attr:"sys/db/id"`
	Key  string  `attr:"sm/key,identity,ignoreempty"`
	Val  int     `attr:"sm/val,ignoreempty"`
	Next *smLink `attr:"sm/next"`
}

// smSight sees links by value, a step at a time.
type smSight struct {
	Key  *string `attr:"sm/key,identity"`
	Next smTail  `attr:"sm/next"`
}

type smTail struct {
	ID   uint64  `attr:"sys/db/id"`
	Val  *int    `attr:"sm/val"`
	Next *smLink `attr:"sm/next"`
}

type smItem struct {
	ID    uint64 `attr:"sys/db/id"`
	Label string `attr:"sm/label"`
}

type smList struct {
	ID    uint64   `attr:"sys/db/id"`
	Key   string   `attr:"sm/list,identity,ignoreempty"`
	Items []smItem `attr:"sm/items"`
	Tags  []string `attr:"sm/tags,value=sm/tag"`
}

type smMap struct {
	ID    uint64             `attr:"sys/db/id"`
	Named map[string]smItem  `attr:"sm/named,key=sm/label"`
	Ptrs  map[string]*smItem `attr:"sm/ptrs,key=sm/label"`
	ByID  map[uint64]smItem  `attr:"sm/by-id"`
}

type smOuter struct {
	ID    uint64   `attr:"sys/db/id"`
	Email *string  `attr:"sm/email,unique"`
	Phone string   `attr:"sm/phone,unique,ignoreempty"`
	Inner smInner  `attr:"sm/inner"`
	Maybe *smInner `attr:"sm/maybe"`
}

type smInner struct {
	ID   uint64  `attr:"sys/db/id"`
	N    int     `attr:"sm/n"`
	Flag *bool   `attr:"sm/flag"`
	Sub  *smDeep `attr:"sm/sub"`
}

type smDeep struct {
	Key int `attr:"sm/deep,identity"`
}

var smalls = map[string]universe{
	"link": {"small", []*typeDesc{
		describe[smLink]("smLink", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "sm/key", "scalar", "str", "identity", true, "", ""},
			{2, "sm/val", "scalar", "int", "", true, "", ""},
			{3, "sm/next", "pstruct", "smLink", "", false, "", ""},
		}),
		describe[smSight]("smSight", "", []fieldDesc{
			{0, "sm/key", "pscalar", "str", "identity", false, "", ""},
			{1, "sm/next", "struct", "smTail", "", false, "", ""},
		}),
		describe[smTail]("smTail", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "sm/val", "pscalar", "int", "", false, "", ""},
			{2, "sm/next", "pstruct", "smLink", "", false, "", ""},
		}),
	}},
	"list": {"small", []*typeDesc{
		itemDesc,
		describe[smList]("smList", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "sm/list", "scalar", "str", "identity", true, "", ""},
			{2, "sm/items", "list", "smItem", "", false, "", ""},
			{3, "sm/tags", "slist", "str", "", false, "", "sm/tag"},
		}),
	}},
	"map": {"small", []*typeDesc{
		itemDesc,
		describe[smMap]("smMap", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "sm/named", "map", "smItem", "", false, "sm/label", ""},
			{2, "sm/ptrs", "pmap", "smItem", "", false, "sm/label", ""},
			{3, "sm/by-id", "map", "smItem", "", false, "sys/db/id", ""},
		}),
	}},
	"embed": {"small", []*typeDesc{
		describe[smDeep]("smDeep", "", []fieldDesc{{0, "sm/deep", "scalar", "int", "identity", false, "", ""}}),
		describe[smInner]("smInner", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "sm/n", "scalar", "int", "", false, "", ""},
			{2, "sm/flag", "pscalar", "bool", "", false, "", ""},
			{3, "sm/sub", "pstruct", "smDeep", "", false, "", ""},
		}),
		describe[smOuter]("smOuter", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "sm/email", "pscalar", "str", "unique", false, "", ""},
			{2, "sm/phone", "scalar", "str", "unique", true, "", ""},
			{3, "sm/inner", "struct", "smInner", "", false, "", ""},
			{4, "sm/maybe", "pstruct", "smInner", "", false, "", ""},
		}),
	}},
}

var itemDesc = describe[smItem]("smItem", "", []fieldDesc{
	{0, "sys/db/id", "id", "", "", false, "", ""},
	{1, "sm/label", "scalar", "str", "", false, "", ""},
})
