package main

// Types that share their names.

func twinsA() []*typeDesc {
	type leaf struct {
		Name string `attr:"tw/name,identity"`
		Nick string `attr:"tw/nick"`
		N    int    `attr:"tw/n"`
	}
	type node struct {
		In     leaf   `attr:"tw/in"`
		Label  string `attr:"tw/label,identity"`
		Ptr    *leaf  `attr:"tw/ptr"`
		Self   *node  `attr:"tw/self"`
		Leaves []leaf `attr:"tw/leaves"`
	}
	return []*typeDesc{
		describe[node]("twNodeA", "", []fieldDesc{
			{0, "tw/in", "struct", "twLeafA", "", false, "", ""},
			{1, "tw/label", "scalar", "str", "identity", false, "", ""},
			{2, "tw/ptr", "pstruct", "twLeafA", "", false, "", ""},
			{3, "tw/self", "pstruct", "twNodeA", "", false, "", ""},
			{4, "tw/leaves", "list", "twLeafA", "", false, "", ""},
		}),
		describe[leaf]("twLeafA", "", []fieldDesc{
			{0, "tw/name", "scalar", "str", "identity", false, "", ""},
			{1, "tw/nick", "scalar", "str", "", false, "", ""},
			{2, "tw/n", "scalar", "int", "", false, "", ""},
		}),
	}
}

func twinsB() []*typeDesc {
	type leaf struct {
		Nick string `attr:"tw/nick"`
		Name string `attr:"tw/name,identity"`
		M    *int   `attr:"tw/m"`
	}
	type node struct {
		In     leaf             `attr:"tw/in"`
		Ptr    *leaf            `attr:"tw/ptr"`
		Label  string           `attr:"tw/label,identity"`
		Named  map[string]*leaf `attr:"tw/named,key=tw/name"`
		Leaves []leaf           `attr:"tw/leaves"`
	}
	return []*typeDesc{
		describe[node]("twNodeB", "", []fieldDesc{
			{0, "tw/in", "struct", "twLeafB", "", false, "", ""},
			{1, "tw/ptr", "pstruct", "twLeafB", "", false, "", ""},
			{2, "tw/label", "scalar", "str", "identity", false, "", ""},
			{3, "tw/named", "pmap", "twLeafB", "", false, "tw/name", ""},
			{4, "tw/leaves", "list", "twLeafB", "", false, "", ""},
		}),
		describe[leaf]("twLeafB", "", []fieldDesc{
			{0, "tw/nick", "scalar", "str", "", false, "", ""},
			{1, "tw/name", "scalar", "str", "identity", false, "", ""},
			{2, "tw/m", "pscalar", "int", "", false, "", ""},
		}),
	}
}

// twinsC are of the attributes of twinsA, but not of their kinds.
func twinsC() []*typeDesc {
	type leaf struct {
		ID   uint64  `attr:"sys/db/id"`
		Nick *string `attr:"tw/nick"`
		N    int     `attr:"tw/n,ignoreempty"`
	}
	return []*typeDesc{
		describe[leaf]("twLeafC", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "tw/nick", "pscalar", "str", "", false, "", ""},
			{2, "tw/n", "scalar", "int", "", true, "", ""},
		}),
	}
}

var twins = universe{"special", append(append(twinsA(), twinsB()...), twinsC()...)}
