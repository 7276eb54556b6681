------------------------------- MODULE Structs -------------------------------
(***************************************************************************)
(* Struct types, graphs of their instances, and what they have to do with  *)
(* datums.                                                                 *)
(*                                                                         *)
(* Ty gives, for the name of each struct type, a record:                   *)
(*   bad |-> "" for types that can be recorded, otherwise why not          *)
(*   f   |-> the sequence of the fields that are bound to attributes.      *)
(* A field is a record:                                                    *)
(*   i   |-> the ident of its attribute                                    *)
(*   k   |-> its kind: id, scalar, pscalar (pointer to scalar), struct,    *)
(*           pstruct, slist (slice of scalars), list (slice of structs),   *)
(*           map (of structs), pmap (map of pointers to structs)           *)
(*   s   |-> the tag of its scalars or the name of its struct type         *)
(*   u   |-> "", "identity" or "unique"                                    *)
(*   ie  |-> whether empty values are ignored                              *)
(*   key |-> the ident of the attribute that keys a map                    *)
(*   val |-> the ident of the attribute of the scalars of a slice          *)
(*                                                                         *)
(* A heap is a sequence of nodes: <<"s", type, fields>> is a struct        *)
(* instance, <<"l", "", elements>> a slice, <<"m", "", entries>> a map     *)
(* whose entries are <<key, element>>.  Fields and elements are            *)
(* <<"v", scalar>>, <<"at", node>> or <<"nil", 0>>.                        *)
(***************************************************************************)
EXTENDS Destructive, SequencesExt

DbIdIdent == "sys/db/id"

ZeroOf(tag) ==
  CASE tag = "str" -> <<"str", "~empty">> [] tag = "int" -> <<"int", "0">> [] tag = "bool" -> <<"bool", "false">>
    [] tag = "inst" -> <<"inst", "-62135596800000">> [] tag = "float" -> <<"float", "0">> [] tag = "id" -> <<"id", 0>>

IsZero(v) == Canon(v) = ZeroOf(v[1])

TypeOfTag(tag) ==
  CASE tag = "str" -> TypeString [] tag = "int" -> TypeInt [] tag = "bool" -> TypeBool
    [] tag = "inst" -> TypeInst [] tag = "float" -> TypeFloat

Collections == {"slist", "list", "map", "pmap"}
Structural == {"struct", "pstruct", "list", "map", "pmap"}

RECURSIVE Closure(_, _, _)
Closure(Step(_), todo, done) ==
  IF todo = {} THEN done
  ELSE LET all == TLCEval(done \cup todo)
           next == TLCEval(UNION {Step(x) : x \in todo} \ all)
       IN Closure(Step, next, all)

----------------------------------------------------------------------------
(* The schema a struct type needs. *)

TypesFrom(Ty, t) ==
  Closure(LAMBDA u : {Ty[u].f[j].s : j \in {j \in DOMAIN Ty[u].f : Ty[u].f[j].k \in Structural}}, {t}, {})

FieldSchema(f) ==
  LET temp(ident) == <<"temp", "attr " \o ident>>
      type == IF f.k \in {"scalar", "pscalar"} THEN TypeOfTag(f.s) ELSE TypeRef
  IN IF f.k = "id" THEN {}
     ELSE {<<temp(f.i), <<"id", DbIdent>>, Str(f.i), FALSE>>, <<temp(f.i), <<"id", AttrType>>, Ref(type), FALSE>>}
          \cup (IF f.u = "identity" THEN {<<temp(f.i), <<"id", AttrUnique>>, Ref(UniqueIdentity), FALSE>>}
                ELSE IF f.u = "unique" THEN {<<temp(f.i), <<"id", AttrUnique>>, Ref(UniqueValue), FALSE>>} ELSE {})
          \cup (IF f.k \in Collections THEN {<<temp(f.i), <<"id", AttrCardinality>>, Ref(CardinalityMany), FALSE>>} ELSE {})
          \cup (IF f.k = "slist"
                THEN {<<temp(f.val), <<"id", DbIdent>>, Str(f.val), FALSE>>,
                      <<temp(f.val), <<"id", AttrType>>, Ref(TypeOfTag(f.s)), FALSE>>}
                ELSE {})

Recordable(Ty, t) == t \in DOMAIN Ty /\ \A u \in TypesFrom(Ty, t) : Ty[u].bad = ""

SchemaRequest(Ty, t) ==
  [claims |-> SetToSeq(UNION {UNION {FieldSchema(Ty[u].f[j]) : j \in DOMAIN Ty[u].f} : u \in TypesFrom(Ty, t)}),
   rets |-> << >>]

----------------------------------------------------------------------------
(* Recording a graph: one entity for each instance, and one for each       *)
(* scalar in a slice.                                                      *)

FieldsAt(Ty, heap, n) == Ty[heap[n][2]].f
IdAt(Ty, heap, n) ==
  LET fs == FieldsAt(Ty, heap, n)
      ids == {heap[n][3][j][2][2] : j \in {j \in DOMAIN fs : fs[j].k = "id"}} \ {0}
  IN IF ids = {} THEN 0 ELSE CHOOSE x \in ids : TRUE

NodeName(n) == ToString(n)
ElemName(n, j, p) == ToString(n) \o "/" \o ToString(j) \o "/" \o ToString(p)
NodeRef(Ty, heap, n) == LET id == IdAt(Ty, heap, n) IN IF id # 0 THEN <<"id", id>> ELSE <<"temp", NodeName(n)>>

(* The elements of a slice or map field. *)
Elements(heap, x) == IF x[1] = "at" THEN heap[x[2]][3] ELSE << >>

ChildrenOf(Ty, heap, n) ==
  LET fs == FieldsAt(Ty, heap, n) IN
  UNION {LET x == heap[n][3][j] IN
         CASE fs[j].k \in {"struct", "pstruct"} -> IF x[1] = "at" THEN {x[2]} ELSE {}
           [] fs[j].k = "list" -> {Elements(heap, x)[p][2] : p \in DOMAIN Elements(heap, x)}
           [] fs[j].k \in {"map", "pmap"} ->
                {Elements(heap, x)[p][2][2] : p \in {p \in DOMAIN Elements(heap, x) : Elements(heap, x)[p][2][1] = "at"}}
           [] OTHER -> {}
         : j \in DOMAIN fs}

NodesFrom(Ty, heap, roots) == Closure(LAMBDA n : ChildrenOf(Ty, heap, n), roots, {})

FieldClaims(Ty, heap, n, j) ==
  LET f == FieldsAt(Ty, heap, n)[j]
      x == heap[n][3][j]
      me == NodeRef(Ty, heap, n)
      a == <<"ident", f.i>>
      xs == Elements(heap, x)
      rank(e, p) == <<e, <<"id", DbRank>>, <<"int", ToString(p - 1)>>, FALSE>>
  IN CASE f.k = "id" \/ x[1] = "nil" -> {}
       [] f.k \in {"scalar", "pscalar"} -> IF f.ie /\ IsZero(x[2]) THEN {} ELSE {<<me, a, x[2], FALSE>>}
       [] f.k \in {"struct", "pstruct"} -> {<<me, a, NodeRef(Ty, heap, x[2]), FALSE>>}
       [] f.k = "slist" ->
            UNION {LET e == <<"temp", ElemName(n, j, p)>> IN
                   {<<me, a, e, FALSE>>, rank(e, p), <<e, <<"ident", f.val>>, xs[p][2], FALSE>>} : p \in DOMAIN xs}
       [] f.k = "list" ->
            UNION {LET e == NodeRef(Ty, heap, xs[p][2]) IN {<<me, a, e, FALSE>>, rank(e, p)} : p \in DOMAIN xs}
       [] f.k \in {"map", "pmap"} ->
            {<<me, a, NodeRef(Ty, heap, xs[p][2][2]), FALSE>> : p \in {p \in DOMAIN xs : xs[p][2][1] = "at"}}

GraphClaims(Ty, heap, roots) ==
  UNION {UNION {FieldClaims(Ty, heap, n, j) : j \in DOMAIN FieldsAt(Ty, heap, n)} : n \in NodesFrom(Ty, heap, roots)}

(* The constraints by which an instance identifies an entity to retract. *)
Constraints(Ty, heap, n) ==
  LET fs == FieldsAt(Ty, heap, n)
      id == IdAt(Ty, heap, n)
  IN (IF id # 0 THEN {<<"id", id>>} ELSE {})
     \cup {<<"lookup", <<"ident", fs[j].i>>, heap[n][3][j][2]>> :
             j \in {j \in DOMAIN fs : /\ fs[j].u # "" /\ fs[j].k \in {"scalar", "pscalar"} /\ heap[n][3][j][1] = "v"
                                      /\ ~(fs[j].ie /\ IsZero(heap[n][3][j][2]))}}

(* Parts of a request are <<"at", node>>, or something else that is none. *)
PartsOk(Ty, heap, parts) == \A j \in DOMAIN parts : parts[j][1] = "at"
NoNilEntries(Ty, heap, nodes) ==
  \A n \in nodes : \A j \in DOMAIN FieldsAt(Ty, heap, n) :
    FieldsAt(Ty, heap, n)[j].k = "pmap" =>
      \A p \in DOMAIN Elements(heap, heap[n][3][j]) : Elements(heap, heap[n][3][j])[p][2][1] = "at"

Roots(parts) == {parts[j][2] : j \in DOMAIN parts}

GraphOk(Ty, heap, as, rs) ==
  /\ PartsOk(Ty, heap, as) /\ PartsOk(Ty, heap, rs)
  /\ NoNilEntries(Ty, heap, NodesFrom(Ty, heap, Roots(as)))
  /\ \A j \in DOMAIN rs : Constraints(Ty, heap, rs[j][2]) # {}

GraphRequest(Ty, heap, as, rs) ==
  [claims |-> SetToSeq(GraphClaims(Ty, heap, Roots(as))),
   rets |-> [j \in DOMAIN rs |-> SetToSeq(Constraints(Ty, heap, rs[j][2]))]]

----------------------------------------------------------------------------
(* Reading an entity as a struct type.                                     *)

(* The datums, by entity, and the attributes, by ident. *)
Shelf(D) ==
  LET M == Meta(D) IN
  [of |-> TLCEval([e \in {E(d) : d \in D} |-> {d \in D : E(d) = e}]),
   called |-> TLCEval([s \in {M[a].ident[2] : a \in DOMAIN M} |-> CHOOSE a \in DOMAIN M : M[a].ident[2] = s])]
Known(sh, e) == e \in DOMAIN sh.of
ValuesIn(sh, e, ident) ==
  IF e \in DOMAIN sh.of /\ ident \in DOMAIN sh.called
  THEN {V(d) : d \in {d \in sh.of[e] : A(d) = sh.called[ident]}} ELSE {}
RefsOf(S) == {v[2] : v \in {v \in S : v[1] = "id"}}

(* V(e, ident): the values of an entity. *)
KeyOf(Val(_, _), f, c) == IF f.key = DbIdIdent THEN {<<"id", c>>} ELSE Val(c, f.key)
RankOf(Val(_, _), c) == Val(c, "sys/db/rank")
Ranks(n) == {<<"int", ToString(p - 1)>> : p \in 1..n}

(* Whether a field of an entity shows what it does in one way only.  Where *)
(* it does not, as when the slice has been recorded again with other       *)
(* elements, this specification says nothing.                              *)
FieldPlain(Val(_, _), Is(_), f, e) ==
  LET vs == Val(e, f.i) cs == RefsOf(vs) IN
  CASE f.k = "id" -> TRUE
    [] f.k \in {"scalar", "pscalar"} -> Cardinality(vs) <= 1 /\ \A v \in vs : v[1] = f.s
    [] f.k \in {"struct", "pstruct"} -> Cardinality(vs) <= 1 /\ \A v \in vs : v[1] = "id"
    [] f.k \in {"slist", "list"} ->
         /\ \A v \in vs : v[1] = "id"
         /\ \A c \in cs : Is(c) => /\ Cardinality(RankOf(Val, c)) = 1
                                   /\ RankOf(Val, c) \subseteq Ranks(Cardinality(cs))
                                   /\ f.k = "slist" => Cardinality(Val(c, f.val)) = 1 /\ \A v \in Val(c, f.val) : v[1] = f.s
         /\ \A c, d \in cs : Is(c) /\ Is(d) /\ c # d => RankOf(Val, c) # RankOf(Val, d)
    [] f.k \in {"map", "pmap"} ->
         /\ \A v \in vs : v[1] = "id"
         /\ \A c \in cs : Cardinality(KeyOf(Val, f, c)) <= 1
         /\ \A c, d \in cs : c # d /\ KeyOf(Val, f, c) # {} => KeyOf(Val, f, c) # KeyOf(Val, f, d)

(* The entities, with the types as which they are read, from one. *)
ReadFrom(Ty, Val(_, _), Is(_), t, e) ==
  Closure(LAMBDA p :
    LET fs == Ty[p[1]].f IN
    IF ~Is(p[2]) THEN {}
    ELSE UNION {{<<fs[j].s, c>> : c \in RefsOf(Val(p[2], fs[j].i))} : j \in {j \in DOMAIN fs : fs[j].k \in Structural}},
    {<<t, e>>}, {})

Plain(Ty, Val(_, _), Is(_), t, e) ==
  \A p \in ReadFrom(Ty, Val, Is, t, e) :
    Is(p[2]) => \A j \in DOMAIN Ty[p[1]].f : FieldPlain(Val, Is, Ty[p[1]].f[j], p[2])

(* What is to be shown of an observed heap: a struct shows an entity, or   *)
(* nothing (entity 0).  Each obligation holds for what it says of its own  *)
(* fields, and gives rise to others.                                       *)
(* <<node, type, entity, whether it is reached by a pointer>>              *)

At(x) == x[1] = "at"

FieldShows(heap, Val(_, _), Is(_), f, x, e) ==
  LET vs == IF e # 0 /\ Is(e) THEN Val(e, f.i) ELSE {} cs == RefsOf(vs)
      some == vs # {}
      the == CHOOSE v \in vs : TRUE
  IN CASE f.k = "none" -> TRUE
       [] f.k = "id" -> x = <<"v", <<"id", IF e # 0 /\ Is(e) THEN e ELSE 0>>>>
       [] f.k = "scalar" -> At(x) = FALSE /\ x[1] = "v" /\ Canon(x[2]) = (IF some THEN the ELSE ZeroOf(f.s))
       [] f.k = "pscalar" -> IF some THEN x[1] = "v" /\ Canon(x[2]) = the ELSE x[1] = "nil"
       [] f.k = "struct" -> At(x) /\ heap[x[2]][1] = "s" /\ heap[x[2]][2] = f.s
       [] f.k = "pstruct" -> IF some THEN At(x) /\ heap[x[2]][1] = "s" /\ heap[x[2]][2] = f.s ELSE x[1] = "nil"
       [] f.k \in {"slist", "list"} ->
            IF ~some THEN x[1] = "nil"
            ELSE LET xs == Elements(heap, x) IN
                 /\ At(x) /\ Len(xs) = Cardinality(cs)
                 /\ f.k = "slist" =>
                      \A p \in DOMAIN xs :
                        LET here == {c \in cs : Is(c) /\ RankOf(Val, c) = {<<"int", ToString(p - 1)>>}} IN
                        xs[p][1] = "v" /\ Canon(xs[p][2]) = (IF here = {} THEN ZeroOf(f.s)
                                                             ELSE CHOOSE v \in Val(CHOOSE c \in here : TRUE, f.val) : TRUE)
                 /\ f.k = "list" => \A p \in DOMAIN xs : At(xs[p]) /\ heap[xs[p][2]][2] = f.s
       [] f.k \in {"map", "pmap"} ->
            IF ~some THEN x[1] = "nil"
            ELSE LET xs == Elements(heap, x)
                     keys == UNION {KeyOf(Val, f, c) : c \in cs}
                 IN /\ At(x) /\ Len(xs) = Cardinality(keys)
                    /\ {Canon(xs[p][1]) : p \in DOMAIN xs} = keys
                    /\ \A p \in DOMAIN xs : At(xs[p][2]) /\ heap[xs[p][2][2]][2] = f.s

FieldLeads(heap, Val(_, _), Is(_), f, x, e) ==
  LET vs == IF e # 0 /\ Is(e) THEN Val(e, f.i) ELSE {} cs == RefsOf(vs)
      the == IF cs = {} THEN 0 ELSE CHOOSE c \in cs : TRUE
      xs == Elements(heap, x)
  IN CASE f.k = "struct" -> {<<x[2], f.s, the, FALSE>>}
       [] f.k = "pstruct" -> IF At(x) THEN {<<x[2], f.s, the, TRUE>>} ELSE {}
       [] f.k = "list" ->
            {LET here == {c \in cs : Is(c) /\ RankOf(Val, c) = {<<"int", ToString(p - 1)>>}} IN
             <<xs[p][2], f.s, IF here = {} THEN 0 ELSE CHOOSE c \in here : TRUE, FALSE>> : p \in DOMAIN xs}
       [] f.k \in {"map", "pmap"} ->
            {LET here == {c \in cs : KeyOf(Val, f, c) = {Canon(xs[p][1])}} IN
             <<xs[p][2][2], f.s, IF here = {} THEN 0 ELSE CHOOSE c \in here : TRUE, f.k = "pmap">> : p \in DOMAIN xs}
       [] OTHER -> {}

NodeShows(Ty, heap, Val(_, _), Is(_), ob) ==
  /\ heap[ob[1]][1] = "s" /\ heap[ob[1]][2] = ob[2]
  /\ \A j \in DOMAIN Ty[ob[2]].f : FieldShows(heap, Val, Is, Ty[ob[2]].f[j], heap[ob[1]][3][j], ob[3])

NodeLeads(Ty, heap, Val(_, _), Is(_), ob) ==
  UNION {FieldLeads(heap, Val, Is, Ty[ob[2]].f[j], heap[ob[1]][3][j], ob[3]) : j \in DOMAIN Ty[ob[2]].f}

(* Every obligation that follows, as long as they hold; and those broken. *)
RECURSIVE Shown(_, _, _, _, _, _)
Shown(Ty, heap, Val(_, _), Is(_), todo, done) ==
  LET wrong == {ob \in todo : ~NodeShows(Ty, heap, Val, Is, ob)} IN
  IF todo = {} THEN [done |-> done, wrong |-> {}]
  ELSE IF wrong # {} THEN [done |-> done \cup todo, wrong |-> wrong]
  ELSE LET all == TLCEval(done \cup todo)
           next == TLCEval(UNION {NodeLeads(Ty, heap, Val, Is, ob) : ob \in todo} \ all)
       IN Shown(Ty, heap, Val, Is, next, all)

(* Pointers to one entity as one type are equal, and no others are. *)
PointersAgree(obs) ==
  LET ps == {<<ob[1], ob[2], ob[3]>> : ob \in {ob \in obs : ob[4]}} IN
  \A p, q \in ps : (p[1] = q[1]) <=> (p[2] = q[2] /\ p[3] = q[3])

----------------------------------------------------------------------------
(* A graph of new entities, once recorded, is all there is to be seen of   *)
(* them.  ids gives the entities of the nodes.                             *)
RecordedExactly(Ty, heap, nodes, ids, Val(_, _)) ==
  \A n \in nodes : \A j \in DOMAIN FieldsAt(Ty, heap, n) :
    LET f == FieldsAt(Ty, heap, n)[j] x == heap[n][3][j] vs == Val(ids[NodeName(n)], f.i) xs == Elements(heap, x)
    IN \/ f.k = "id" \/ \E k \in DOMAIN FieldsAt(Ty, heap, n) \ {j} : FieldsAt(Ty, heap, n)[k].i = f.i
       \/ CASE f.k \in {"scalar", "pscalar"} ->
                 vs = (IF x[1] = "nil" \/ (f.ie /\ IsZero(x[2])) THEN {} ELSE {Canon(x[2])})
            [] f.k \in {"struct", "pstruct"} -> vs = (IF At(x) THEN {Ref(ids[NodeName(x[2])])} ELSE {})
            [] f.k = "slist" ->
                 /\ Cardinality(vs) = Len(xs)
                 /\ \A p \in DOMAIN xs : LET c == ids[ElemName(n, j, p)] IN
                      Ref(c) \in vs /\ RankOf(Val, c) = {<<"int", ToString(p - 1)>>} /\ Val(c, f.val) = {Canon(xs[p][2])}
            [] f.k = "list" ->
                 /\ vs = {Ref(ids[NodeName(xs[p][2])]) : p \in DOMAIN xs}
                 /\ \A p \in DOMAIN xs : RankOf(Val, ids[NodeName(xs[p][2])]) = {<<"int", ToString(p - 1)>>}
            [] f.k \in {"map", "pmap"} -> vs = {Ref(ids[NodeName(xs[p][2][2])]) : p \in DOMAIN xs}
=============================================================================
