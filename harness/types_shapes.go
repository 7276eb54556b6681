package main

// Struct types without names, with parameters, and embedded in one another.

type shOne = struct {
	X string `attr:"sh/x"`
	N int    `json:"n" attr:"sh/n,ignoreempty"`
}

type shTwo = struct {
	Y  string  `attr:"sh/y" xml:"attr"`
	To *shAnon `attr:"sh/to"`
}

type shThree = struct {
	Z   *int   `attr:"sh/z"`
	Key string `attr:"sh/k"`
}

type shFour = struct {
	K string  `attr:"sh/k"`
	W float64 `attr:"sh/w"`
}

type shAnon struct {
	ID    uint64             `attr:"sys/db/id"`
	Name  string             `attr:"sh/name,identity,ignoreempty"`
	One   shOne              `attr:"sh/one"`
	Two   *shTwo             `attr:"sh/two"`
	Three []shThree          `attr:"sh/three"`
	Four  map[string]shFour  `attr:"sh/four,key=sh/k"`
	Five  map[string]*shFour `attr:"sh/five,key=sh/k"`
}

type shBox[T any] struct {
	Label string `attr:"sh/label"`
	In    *T     `attr:"sh/in"`
	All   []T    `attr:"sh/all"`
}

type shFlag struct {
	B    bool     `attr:"sh/b"`
	Tags []string `attr:"sh/tags,value=sh/tag"`
}

type shCrate struct {
	A *shBox[shOne]         `attr:"sh/ca"`
	B shBox[shFlag]         `attr:"sh/cb"`
	C *shBox[shBox[shFlag]] `attr:"sh/cc"`
}

type ShBase struct {
	Label string  `attr:"sh/label"`
	K     *string `attr:"sh/k"`
}

type shDerived struct {
	X      string `attr:"sh/x"`
	ShBase `attr:"sh/base"`
	Label  string `attr:"sh/y"`
}

// shPlain does not bind what it embeds to anything.
type shPlain struct {
	ShBase
	X string `attr:"sh/x"`
}

type shPointing struct {
	*ShBase `attr:"sh/base"`
	N       int `attr:"sh/n"`
}

var shapes = universe{"special", []*typeDesc{
	describe[shOne]("shOne", "", []fieldDesc{
		{0, "sh/x", "scalar", "str", "", false, "", ""},
		{1, "sh/n", "scalar", "int", "", true, "", ""},
	}),
	describe[shTwo]("shTwo", "", []fieldDesc{
		{0, "sh/y", "scalar", "str", "", false, "", ""},
		{1, "sh/to", "pstruct", "shAnon", "", false, "", ""},
	}),
	describe[shThree]("shThree", "", []fieldDesc{
		{0, "sh/z", "pscalar", "int", "", false, "", ""},
		{1, "sh/k", "scalar", "str", "", false, "", ""},
	}),
	describe[shFour]("shFour", "", []fieldDesc{
		{0, "sh/k", "scalar", "str", "", false, "", ""},
		{1, "sh/w", "scalar", "float", "", false, "", ""},
	}),
	describe[shAnon]("shAnon", "", []fieldDesc{
		{0, "sys/db/id", "id", "", "", false, "", ""},
		{1, "sh/name", "scalar", "str", "identity", true, "", ""},
		{2, "sh/one", "struct", "shOne", "", false, "", ""},
		{3, "sh/two", "pstruct", "shTwo", "", false, "", ""},
		{4, "sh/three", "list", "shThree", "", false, "", ""},
		{5, "sh/four", "map", "shFour", "", false, "sh/k", ""},
		{6, "sh/five", "pmap", "shFour", "", false, "sh/k", ""},
	}),
	describe[shFlag]("shFlag", "", []fieldDesc{
		{0, "sh/b", "scalar", "bool", "", false, "", ""},
		{1, "sh/tags", "slist", "str", "", false, "", "sh/tag"},
	}),
	describe[shBox[shOne]]("shBoxOne", "", []fieldDesc{
		{0, "sh/label", "scalar", "str", "", false, "", ""},
		{1, "sh/in", "pstruct", "shOne", "", false, "", ""},
		{2, "sh/all", "list", "shOne", "", false, "", ""},
	}),
	describe[shBox[shFlag]]("shBoxFlag", "", []fieldDesc{
		{0, "sh/label", "scalar", "str", "", false, "", ""},
		{1, "sh/in", "pstruct", "shFlag", "", false, "", ""},
		{2, "sh/all", "list", "shFlag", "", false, "", ""},
	}),
	describe[shBox[shBox[shFlag]]]("shBoxBox", "", []fieldDesc{
		{0, "sh/label", "scalar", "str", "", false, "", ""},
		{1, "sh/in", "pstruct", "shBoxFlag", "", false, "", ""},
		{2, "sh/all", "list", "shBoxFlag", "", false, "", ""},
	}),
	describe[shCrate]("shCrate", "", []fieldDesc{
		{0, "sh/ca", "pstruct", "shBoxOne", "", false, "", ""},
		{1, "sh/cb", "struct", "shBoxFlag", "", false, "", ""},
		{2, "sh/cc", "pstruct", "shBoxBox", "", false, "", ""},
	}),
	describe[ShBase]("shBase", "", []fieldDesc{
		{0, "sh/label", "scalar", "str", "", false, "", ""},
		{1, "sh/k", "pscalar", "str", "", false, "", ""},
	}),
	describe[shDerived]("shDerived", "", []fieldDesc{
		{0, "sh/x", "scalar", "str", "", false, "", ""},
		{1, "sh/base", "struct", "shBase", "", false, "", ""},
		{2, "sh/y", "scalar", "str", "", false, "", ""},
	}),
	describe[shPlain]("shPlain", "", []fieldDesc{
		{1, "sh/x", "scalar", "str", "", false, "", ""},
	}),
	describe[shPointing]("shPointing", "", []fieldDesc{
		{0, "sh/base", "pstruct", "shBase", "", false, "", ""},
		{1, "sh/n", "scalar", "int", "", false, "", ""},
	}),
}}
