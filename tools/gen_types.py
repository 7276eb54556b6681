#!/usr/bin/env python3
"""Generates harness/types_gen.go: universes of struct types over shared attributes, with descriptions of
their fields that are made here, not derived from the tags by the code under test."""
import random, sys

GO = {"str": "string", "int": "int", "bool": "bool", "inst": "time.Time", "float": "float64"}
NAMED = {"str": "nStr", "int": "nInt", "bool": "nBool", "float": "nFloat"}
# Directives added later are drawn separately, so as not to change everything else.
rnd2 = random.Random(7)
SYS = {"str": "string", "int": "int", "bool": "bool", "inst": "inst", "float": "float"}


class Field:
    def __init__(self, ident, kind, s="", u="", ie=False, key="", val="", goname=None, named=False):
        self.ident, self.kind, self.s, self.u, self.ie, self.key, self.val, self.named = ident, kind, s, u, ie, key, val, named

    def gotype(self, U):
        sc = lambda t: NAMED[t] if self.named and t in NAMED else GO[t]
        k = self.kind
        if k == "id": return "uint64"
        if k == "scalar": return sc(self.s)
        if k == "pscalar": return "*" + sc(self.s)
        if k == "struct": return self.s
        if k == "pstruct": return "*" + self.s
        if k == "slist": return "[]" + sc(self.s)
        if k == "list": return "[]" + self.s
        kt = "uint64" if not self.key else (NAMED[self.keytag] if self.named and self.keytag in NAMED else GO[self.keytag])
        if k == "map": return "map[%s]%s" % (kt, self.s)
        if k == "pmap": return "map[%s]*%s" % (kt, self.s)
        raise Exception(k)

    def tag(self, rnd):
        parts = []
        if self.u: parts.append(self.u)
        if self.ie: parts.append("ignoreempty")
        if self.key: parts.append("key=" + self.key)
        if self.val: parts.append("value=" + self.val)
        rnd.shuffle(parts)
        return ",".join([self.ident] + parts)


def universe(n, rnd, style):
    p = "u%d" % n
    names = ["U%d%s" % (n, c) for c in "ABCD"]
    scalars = []
    tags = ["str", "int", "bool", "inst", "float"]
    count = rnd.randint(4, 9)
    for i in range(count):
        t = rnd.choice(tags) if i > 2 else ["str", "int", rnd.choice(tags)][i]
        u = ""
        if i == 0: u = "identity" if rnd.random() < .7 else ""
        elif t in ("str", "int", "inst", "float") and rnd.random() < .25: u = rnd.choice(["identity", "unique"])
        scalars.append((p + "/s%d" % i, t, u))
    singles = [p + "/r%d" % i for i in range(rnd.randint(1, 3))]
    lists = [p + "/l%d" % i for i in range(rnd.randint(0, 2))]
    maps = [p + "/m%d" % i for i in range(rnd.randint(0, 2))]
    slists = [(p + "/v%d" % i, p + "/e%d" % i if rnd.random() < .7 else p + "/e0", None) for i in range(rnd.randint(0, 2))]
    etags = {}
    slists = [(a, e, etags.setdefault(e, rnd.choice(tags))) for a, e, _ in slists]
    if style == "graph":
        singles = [p + "/r%d" % i for i in range(3)]
        maps = maps or [p + "/m0"]
        lists = lists or [p + "/l0"]
    if style == "flat":
        singles, lists, maps, slists = [], [], [], []
    types = {}
    for ti, name in enumerate(names):
        fs = []
        if rnd.random() < .65: fs.append(Field("sys/db/id", "id"))
        for ident, t, u in scalars:
            if rnd.random() < .7:
                kind = "pscalar" if rnd.random() < .3 else "scalar"
                uu = u if rnd.random() < .97 else ""
                fs.append(Field(ident, kind, t, uu, ie=(kind == "scalar" and rnd.random() < .3), named=rnd.random() < .2))
        types[name] = fs
    for ti, name in enumerate(names):
        fs = types[name]
        later = names[ti + 1:]
        for ident in singles:
            if rnd.random() < .65:
                if later and rnd.random() < .35: fs.append(Field(ident, "struct", rnd.choice(later)))
                else: fs.append(Field(ident, "pstruct", rnd.choice(names)))
        for ident in lists:
            if rnd.random() < .5: fs.append(Field(ident, "list", rnd.choice(names)))
        for ident in maps:
            if rnd.random() < .6:
                target = rnd.choice(names)
                keys = [f for f in types[target] if f.kind == "scalar" and not f.ie and f.s != "inst"]
                has_id = any(f.kind == "id" for f in types[target])
                f = Field(ident, rnd.choice(["map", "pmap"]), target)
                if keys and (rnd.random() < .8 or not has_id):
                    k = rnd.choice(keys)
                    f.key, f.keytag, f.named = k.ident, k.s, rnd.random() < .2
                elif not has_id:
                    continue
                fs.append(f)
        for a, e, t in slists:
            if rnd.random() < .6: fs.append(Field(a, "slist", t, ie=rnd2.random() < .35, val=e, named=rnd.random() < .2))
        if rnd.random() < .3: fs.append(Field("", "none", rnd.choice(["string", "chan int", "[]int32", "*int", "map[string]int", "func()", "any"])))
        # The zero size of structs without fields makes their addresses meaningless.
        if not [f for f in fs if f.kind not in ("none",)]: fs.append(Field(scalars[0][0], "scalar", scalars[0][1], scalars[0][2]))
        ids = [f for f in fs if f.kind == "id"]
        rest = [f for f in fs if f.kind != "id"]
        if rnd.random() < .7: rnd.shuffle(rest)
        at = 0 if rnd.random() < .6 else rnd.randint(0, len(rest))
        types[name] = rest[:at] + ids + rest[at:]
        # One attribute may be seen through several fields.
        if rnd.random() < .12:
            again = [f for f in types[name] if f.kind == "scalar"]
            if again:
                f = rnd.choice(again)
                g = Field(f.ident, "pscalar", f.s, f.u)
                types[name].append(g)
    return names, types


def main():
    rnd = random.Random(20240)
    out = ["// Code generated by tools/gen_types.py. DO NOT EDIT.", "", "package main", "", "import \"time\"", "", "var _ time.Time", "",
           "type nStr string", "type nInt int", "type nBool bool", "type nFloat float64", ""]
    table = ["var universes = []universe{"]
    styles = ["flat"] * 4 + ["mixed"] * 18 + ["graph"] * 10
    for n, style in enumerate(styles):
        names, types = universe(n, rnd, style)
        rows = []
        for name in names:
            out.append("type %s struct {" % name)
            descs = []
            for i, f in enumerate(types[name]):
                if f.kind == "none":
                    t = rnd.choice(["", " `json:\"x\"`"])
                    out.append("\tX%d %s%s" % (i, f.s, t))
                    continue
                go, tag = f.gotype(names), f.tag(rnd)
                extra = rnd.choice(["", "", " json:\"x,omitempty\""])
                out.append("\tF%d %s `attr:\"%s\"%s`" % (i, go, tag, extra))
                descs.append("{%d, %s, %s, %s, %s, %s, %s, %s}" % (
                    i, q(f.ident), q(f.kind), q(f.s), q(f.u), "true" if f.ie else "false",
                    q(f.key if f.key or f.kind not in ("map", "pmap") else "sys/db/id"), q(f.val)))
            out.append("}\n")
            rows.append("\t\tdescribe[%s](%s, \"\", []fieldDesc{\n\t\t\t%s,\n\t\t})," % (name, q(name), ",\n\t\t\t".join(descs)))
        table.append("\t{%s, []*typeDesc{\n%s\n\t}}," % (q(style), "\n".join(rows)))
    table.append("}\n")
    sys.stdout.write("\n".join(out + table))


def q(s): return '"%s"' % s


main()
