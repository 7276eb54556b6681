package main

// Structs that begin with structs, so that what they hold has their address.

type inPart struct {
	Label string   `attr:"in/label"`
	Next  *inPart  `attr:"in/next"`
	Whole *inWhole `attr:"in/whole"`
}

type inWhole struct {
	Part  inPart             `attr:"in/part"`
	Name  *string            `attr:"in/name,identity"`
	Main  *inPart            `attr:"in/main"`
	Parts []inPart           `attr:"in/parts"`
	First *inPart            `attr:"in/first"`
	Self  *inWhole           `attr:"in/self"`
	Named map[string]*inPart `attr:"in/named,key=in/label"`
}

type inOuter struct {
	Inner inWhole   `attr:"in/inner"`
	Note  string    `attr:"in/note,ignoreempty"`
	Main  *inWhole  `attr:"in/self"`
	Part  *inPart   `attr:"in/part"`
	All   []inWhole `attr:"in/all"`
	One   *inWhole  `attr:"in/one"`
	Outer *inOuter  `attr:"in/outer"`
}

var inner = universe{"special", []*typeDesc{
	describe[inPart]("inPart", "", []fieldDesc{
		{0, "in/label", "scalar", "str", "", false, "", ""},
		{1, "in/next", "pstruct", "inPart", "", false, "", ""},
		{2, "in/whole", "pstruct", "inWhole", "", false, "", ""},
	}),
	describe[inWhole]("inWhole", "", []fieldDesc{
		{0, "in/part", "struct", "inPart", "", false, "", ""},
		{1, "in/name", "pscalar", "str", "identity", false, "", ""},
		{2, "in/main", "pstruct", "inPart", "", false, "", ""},
		{3, "in/parts", "list", "inPart", "", false, "", ""},
		{4, "in/first", "pstruct", "inPart", "", false, "", ""},
		{5, "in/self", "pstruct", "inWhole", "", false, "", ""},
		{6, "in/named", "pmap", "inPart", "", false, "in/label", ""},
	}),
	describe[inOuter]("inOuter", "", []fieldDesc{
		{0, "in/inner", "struct", "inWhole", "", false, "", ""},
		{1, "in/note", "scalar", "str", "", true, "", ""},
		{2, "in/self", "pstruct", "inWhole", "", false, "", ""},
		{3, "in/part", "pstruct", "inPart", "", false, "", ""},
		{4, "in/all", "list", "inWhole", "", false, "", ""},
		{5, "in/one", "pstruct", "inWhole", "", false, "", ""},
		{6, "in/outer", "pstruct", "inOuter", "", false, "", ""},
	}),
}}
