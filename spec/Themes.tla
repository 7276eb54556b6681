------------------------------- MODULE Themes -------------------------------
(***************************************************************************)
(* Small worlds in which everything can be tried: a setup, and a finite    *)
(* universe of requests and queries.                                       *)
(*                                                                         *)
(* References <<"name", s>> stand for the entity that the temp id s of the *)
(* latest accepted request that had it came to be.                         *)
(***************************************************************************)
EXTENDS Destructive, SequencesExt

I(s) == <<"ident", s>>
N(s) == <<"name", s>>
X(s) == <<"temp", s>>
Txn == <<"txn", 0>>
S(s) == <<"str", s>>
Z(s) == <<"int", s>>
L(a, v) == <<"lookup", a, v>>
Say(e, a, v) == <<e, a, v, FALSE>>
Deny(e, a, v) == <<e, a, v, TRUE>>
Req(claims) == [claims |-> claims, rets |-> << >>]
Ret(refs) == [claims |-> << >>, rets |-> <<refs>>]

(* Declares an attribute; unique and card may be "". *)
Attribute(t, ident, type, unique, card) ==
  <<Say(X(t), I("sys/db/ident"), S(ident)), Say(X(t), I("sys/attr/type"), I("sys/attr/type/" \o type))>>
  \o (IF unique = "" THEN << >> ELSE <<Say(X(t), I("sys/attr/unique"), I("sys/attr/unique/" \o unique))>>)
  \o (IF card = "" THEN << >> ELSE <<Say(X(t), I("sys/attr/cardinality"), I("sys/attr/cardinality/" \o card))>>)

Product(As, Bs, f(_, _)) == FlattenSeq([n \in DOMAIN As |-> [m \in DOMAIN Bs |-> f(As[n], Bs[m])]])

(* All sequences of as many claims. *)
Ones(C) == [n \in DOMAIN C |-> <<C[n]>>]
Twos(C) == Product(C, C, LAMBDA x, y : <<x, y>>)
Threes(C) == Product(Twos(C), C, LAMBDA x, y : Append(x, y))
Requests(lists) == [n \in DOMAIN lists |-> Req(lists[n])]
WithRet(lists, refs) == [n \in DOMAIN lists |-> [claims |-> lists[n], rets |-> <<refs>>]]

Queries(es, as, vs) == Product(Product(es, as, LAMBDA e, a : <<e, a>>), vs, LAMBDA p, v : <<p[1], p[2], v>>)

----------------------------------------------------------------------------
(* Unique values, held and claimed, by name and by temp id. *)

UniqueSetup == <<
  Req(Attribute("ai", "u/i", "string", "identity", "") \o Attribute("aj", "u/j", "int", "identity", "one")
      \o Attribute("av", "u/v", "string", "value", "") \o Attribute("ap", "u/p", "string", "", "")
      \o Attribute("am", "u/m", "string", "identity", "many")),
  Req(<<Say(X("e1"), I("u/i"), S("a")), Say(X("e1"), I("u/v"), S("a")),
        Say(X("e2"), I("u/j"), Z("1")), Say(X("e2"), I("u/p"), S("b")), Say(X("e2"), I("u/m"), S("a"))>>) >>

UniqueAV == <<<<I("u/i"), S("a")>>, <<I("u/i"), S("b")>>, <<I("u/j"), Z("1")>>, <<I("u/v"), S("a")>>, <<I("u/v"), S("b")>>>>
UniqueClaims ==
  Product(<<X("x"), X("y"), N("e1"), N("e2")>>, UniqueAV, LAMBDA e, p : Say(e, p[1], p[2]))
  \o Product(<<N("e1"), N("e2")>>, UniqueAV, LAMBDA e, p : Deny(e, p[1], p[2]))
UniqueRequests ==
  Requests(Ones(UniqueClaims)) \o Requests(Twos(UniqueClaims)) \o WithRet(Ones(UniqueClaims), <<N("e1")>>)
  \o WithRet(Ones(UniqueClaims), <<L(I("u/j"), Z("1"))>>) \o <<Ret(<<N("e1")>>), Ret(<<N("e2")>>)>>
UniqueQueries ==
  Queries(<<Nil, N("e1"), L(I("u/i"), S("a")), L(I("u/v"), S("b")), L(I("u/j"), Z("1"))>>,
          <<Nil, I("u/i"), I("u/v"), I("u/p")>>, <<Nil, S("a"), S("b"), Z("1")>>)

(* Temp ids that come to be the same. *)
UnifyClaims ==
  Product(<<X("x"), X("y"), X("z")>>, <<<<I("u/i"), S("a")>>, <<I("u/i"), S("b")>>, <<I("u/j"), Z("1")>>, <<I("u/m"), S("a")>>, <<I("u/m"), S("b")>>>>,
          LAMBDA e, p : Say(e, p[1], p[2]))
UnifyRequests == Requests(Threes(UnifyClaims))

----------------------------------------------------------------------------
(* Claims in order, replaced and repeated, of one value and of many. *)

EffectsSetup == <<
  Req(Attribute("ao", "f/one", "int", "", "") \o Attribute("am", "f/many", "int", "", "many")
      \o Attribute("ar", "f/ref", "ref", "", "one")),
  Req(<<Say(X("e1"), I("f/one"), Z("1")), Say(X("e1"), I("f/many"), Z("1")), Say(X("e2"), I("f/ref"), X("e1"))>>) >>

EffectsClaims ==
  Product(<<N("e1"), X("x")>>, <<<<I("f/one"), Z("1")>>, <<I("f/one"), Z("2")>>, <<I("f/many"), Z("1")>>, <<I("f/many"), Z("2")>>>>,
          LAMBDA e, p : Say(e, p[1], p[2]))
  \o Product(<<N("e1")>>, <<<<I("f/one"), Z("1")>>, <<I("f/one"), Z("2")>>, <<I("f/many"), Z("1")>>, <<I("f/many"), Z("2")>>>>,
          LAMBDA e, p : Deny(e, p[1], p[2]))
EffectsRequests ==
  Requests(Ones(EffectsClaims)) \o Requests(Twos(EffectsClaims)) \o Requests(Threes(EffectsClaims))
  \o WithRet(Ones(EffectsClaims), <<N("e1")>>) \o WithRet(Twos(EffectsClaims), <<N("e1")>>) \o <<Ret(<<N("e2")>>), Ret(<<N("x")>>), Req(<<>>)>>
EffectsQueries ==
  Queries(<<Nil, N("e1"), N("e2"), N("x")>>, <<Nil, I("f/one"), I("f/many"), I("f/ref")>>, <<Nil, Z("1"), Z("2"), N("e1")>>)

----------------------------------------------------------------------------
(* Declarations, good and bad, and what may then be done with them. *)

SchemaSetup == <<
  Req(Attribute("ab", "p/b", "string", "identity", "many")),
  Req(<<Say(X("e1"), I("sys/db/ident"), S("p/c")), Say(X("e1"), I("p/b"), S("a"))>>) >>

SchemaOf(e) == <<
  Say(e, I("sys/db/ident"), S("p/a")), Say(e, I("sys/attr/type"), I("sys/attr/type/string")),
  Say(e, I("sys/attr/type"), I("sys/attr/type/int")), Say(e, I("sys/attr/type"), I("sys/attr/cardinality/one")),
  Say(e, I("sys/attr/cardinality"), I("sys/attr/cardinality/one")), Say(e, I("sys/attr/cardinality"), I("sys/attr/cardinality/many")),
  Say(e, I("sys/attr/cardinality"), I("p/b")),
  Say(e, I("sys/attr/unique"), I("sys/attr/unique/identity")), Say(e, I("sys/attr/unique"), I("sys/attr/unique/value")),
  Say(e, I("sys/attr/unique"), I("sys/attr/cardinality/one")) >>
SchemaOthers == <<
  Say(N("e1"), I("sys/attr/type"), I("sys/attr/type/int")), Say(I("p/b"), I("sys/attr/cardinality"), I("sys/attr/cardinality/one")),
  Say(I("p/b"), I("sys/attr/cardinality"), I("sys/attr/cardinality/many")), Say(I("p/b"), I("sys/db/ident"), S("p/d")),
  Deny(I("p/b"), I("sys/db/ident"), S("p/b")), Deny(I("p/b"), I("sys/attr/type"), I("sys/attr/type/string")),
  Deny(X("x"), I("sys/db/ident"), S("p/a")), Say(N("e1"), I("p/a"), S("a")), Say(N("e1"), I("p/a"), Z("1")), Say(N("x"), I("p/b"), S("b")) >>
SchemaClaims == SchemaOf(X("x")) \o SchemaOthers
SchemaRequests ==
  Requests(Ones(SchemaClaims)) \o Requests(Twos(SchemaClaims)) \o Requests(Threes(SchemaOf(X("x"))))
  \o [n \in DOMAIN SchemaOthers |-> Req(Attribute("x", "p/a", "string", "", "") \o <<SchemaOthers[n]>>)]
  \o [n \in DOMAIN SchemaOthers |-> Req(<<SchemaOthers[n]>> \o Attribute("x", "p/a", "int", "value", "many"))]
  \o <<Ret(<<I("p/b")>>), Ret(<<I("p/a")>>), Ret(<<I("p/c")>>)>>
SchemaQueries == Queries(<<Nil, N("e1"), I("p/a"), I("p/b"), I("p/c")>>, <<Nil, I("p/a"), I("p/b"), I("sys/attr/type"), I("sys/db/ident")>>,
                         <<Nil, S("a"), I("sys/attr/type/string"), S("p/a")>>)

----------------------------------------------------------------------------
(* References of all forms. *)

RefsSetup == <<
  Req(Attribute("ai", "r/i", "string", "identity", "") \o Attribute("av", "r/v", "ref", "value", "")
      \o Attribute("ap", "r/p", "string", "", "") \o Attribute("ar", "r/r", "ref", "", "many")),
  Req(<<Say(X("e1"), I("sys/db/ident"), S("r/e1")), Say(X("e1"), I("r/i"), S("a")), Say(X("e1"), I("r/p"), S("a")),
        Say(X("e2"), I("r/v"), X("e1")), Say(X("e2"), I("r/i"), S("r/i"))>>) >>

RefsTo == << N("e1"), N("e2"), I("r/e1"), I("r/none"), L(I("r/i"), S("a")), L(I("r/i"), S("b")), L(N("ai"), S("a")), L(I("r/p"), S("a")),
             L(L(I("sys/db/ident"), S("r/i")), S("a")), L(I("r/i"), Z("1")), L(I("r/none"), S("a")), <<"id", 0>>, Nil >>
RefsOnlyE == << X("x"), Txn, <<"id", 5>> >>
RefsClaims ==
  [n \in DOMAIN RefsTo |-> Say(RefsTo[n], I("r/p"), S("b"))] \o [n \in DOMAIN RefsOnlyE |-> Say(RefsOnlyE[n], I("r/p"), S("b"))]
  \o [n \in DOMAIN RefsTo |-> Say(N("e2"), I("r/r"), RefsTo[n])] \o <<Say(N("e2"), I("r/r"), X("x")), Say(X("y"), I("r/v"), X("x"))>>
  \o <<Say(N("e1"), N("ap"), S("c")), Say(N("e1"), L(I("sys/db/ident"), S("r/p")), S("c")), Say(N("e1"), N("e2"), S("c")),
       Say(N("e1"), L(I("sys/db/ident"), S("r/none")), S("c")), Say(N("e1"), X("x"), S("c")), Say(N("e1"), <<"id", 0>>, S("c")),
       Say(N("e1"), <<"id", 900000>>, S("c")), Say(N("e1"), Nil, S("c"))>>
RefsRequests ==
  Requests(Ones(RefsClaims)) \o Requests(Twos(RefsClaims))
  \o [n \in DOMAIN RefsTo |-> Ret(<<RefsTo[n]>>)]
  \o Product(RefsTo, RefsTo, LAMBDA x, y : Ret(<<x, y>>))
RefsQueries ==
  Queries(RefsTo \o <<Txn>>, <<Nil, I("r/p"), N("ar"), L(I("sys/db/ident"), S("r/v")), L(I("r/i"), S("r/i")), I("r/none")>>, <<Nil, S("a"), I("r/e1"), L(I("r/i"), S("a")), L(I("r/i"), S("b"))>>)

----------------------------------------------------------------------------
(* What is the system's. *)

SystemSetup == <<
  Req(Attribute("ap", "y/p", "string", "", "") \o Attribute("ar", "y/r", "ref", "", "")),
  Req(<<Say(X("e1"), I("y/p"), S("a"))>>) >>

SystemEs == << <<"id", 1>>, <<"id", 5>>, <<"id", 12>>, <<"id", 18>>, I("sys/db/ident"), I("sys/tx/at"), I("sys/attr/type/int"), L(I("sys/db/ident"), S("sys/attr/unique")) >>
SystemClaims ==
  Product(SystemEs, <<<<I("y/p"), S("a")>>, <<I("y/r"), N("e1")>>, <<I("sys/db/ident"), S("y/e")>>, <<I("sys/attr/cardinality"), I("sys/attr/cardinality/many")>>>>,
          LAMBDA e, p : Say(e, p[1], p[2]))
  \o Product(SystemEs, <<<<I("sys/db/ident"), S("sys/db/ident")>>, <<I("sys/attr/type"), I("sys/attr/type/string")>>, <<I("y/p"), S("a")>>>>, LAMBDA e, p : Deny(e, p[1], p[2]))
SystemFine == << Say(N("e1"), I("y/r"), <<"id", 12>>), Say(N("e1"), I("y/r"), I("sys/attr/type/int")), Say(X("x"), I("y/p"), S("b")),
                 Say(Txn, I("y/p"), S("b")), Say(X("x"), I("sys/db/ident"), S("sys/y")), Say(N("e1"), I("sys/db/ident"), S("sys/")),
                 Say(N("e1"), I("sys/db/ident"), S("sysy")), Say(N("e1"), I("sys/db/ident"), S("sys")), Say(Txn, I("sys/tx/at"), <<"inst", "1">>) >>
SystemRequests ==
  Requests(Ones(SystemClaims)) \o Requests(Ones(SystemFine)) \o Requests(Twos(SystemFine))
  \o Requests(Product(SystemClaims, SystemFine, LAMBDA x, y : <<x, y>>)) \o Requests(Product(SystemFine, SystemClaims, LAMBDA x, y : <<x, y>>))
  \o [n \in DOMAIN SystemEs |-> Ret(<<SystemEs[n]>>)] \o WithRet(Ones(SystemFine), <<I("sys/db/rank")>>)
SystemQueries == Queries(<<Nil>> \o SystemEs, <<Nil, I("sys/db/ident"), I("sys/attr/type"), I("y/r")>>, <<Nil, S("sys/tx/at"), I("sys/attr/type/string"), <<"id", 12>>>>)

----------------------------------------------------------------------------
(* Idents that come, go and move. *)

IdentsSetup == <<
  Req(Attribute("ap", "n/p", "string", "", "")),
  Req(<<Say(X("e1"), I("sys/db/ident"), S("n/a")), Say(X("e2"), I("sys/db/ident"), S("n/b")), Say(X("e2"), I("n/p"), S("a"))>>) >>

IdentsClaims ==
  Product(<<N("e1"), N("e2"), X("x"), Txn>>, <<S("n/a"), S("n/b"), S("n/c")>>, LAMBDA e, v : Say(e, I("sys/db/ident"), v))
  \o Product(<<N("e1"), N("e2")>>, <<S("n/a"), S("n/b"), S("n/c")>>, LAMBDA e, v : Deny(e, I("sys/db/ident"), v))
  \o <<Say(I("n/a"), I("n/p"), S("b")), Say(I("n/b"), I("n/p"), S("b")), Say(I("n/c"), I("n/p"), S("b"))>>
IdentsRequests ==
  Requests(Ones(IdentsClaims)) \o Requests(Twos(IdentsClaims))
  \o WithRet(Ones(IdentsClaims), <<N("e1")>>) \o WithRet(Ones(IdentsClaims), <<I("n/b")>>) \o WithRet(Ones(IdentsClaims), <<N("e1"), I("n/a")>>)
  \o <<Ret(<<N("e1")>>), Ret(<<I("n/b")>>), Ret(<<I("n/a"), I("n/b")>>)>>
IdentsQueries == Queries(<<Nil, I("n/a"), I("n/b"), I("n/c"), N("e1")>>, <<Nil, I("sys/db/ident"), I("n/p"), I("n/a")>>, <<Nil, S("n/a"), S("n/c"), S("b"), I("n/b")>>)

----------------------------------------------------------------------------
(* Values of all types, in all their representations, where they belong and where they do not. *)

ValuesSetup == <<
  Req(Attribute("as", "v/s", "string", "", "") \o Attribute("ai", "v/i", "int", "", "") \o Attribute("ab", "v/b", "bool", "", "")
      \o Attribute("af", "v/f", "float", "", "") \o Attribute("afm", "v/fm", "float", "", "many") \o Attribute("afi", "v/fi", "float", "identity", "")
      \o Attribute("at", "v/t", "inst", "", "") \o Attribute("ati", "v/ti", "inst", "identity", "") \o Attribute("ar", "v/r", "ref", "", "many")
      \o Attribute("asm", "v/sm", "string", "value", "many")),
  Req(<<Say(X("e1"), I("v/f"), <<"float", "0">>), Say(X("e1"), I("v/fm"), <<"float", "NaN">>), Say(X("e1"), I("v/fi"), <<"float", "NaN">>),
        Say(X("e1"), I("v/t"), <<"inst", "1">>), Say(X("e1"), I("v/s"), S("~empty")), Say(X("e1"), I("v/b"), <<"bool", "false">>)>>),
  Req(<<Say(X("e2"), I("v/ti"), <<"inst", "-1">>), Say(X("e2"), I("v/i"), Z("9223372036854775807")), Say(X("e2"), I("v/sm"), S("~bad"))>>) >>

ValuesAV == <<
  <<I("v/s"), S("~empty")>>, <<I("v/s"), S("~nul")>>, <<I("v/s"), S("~cjk")>>, <<I("v/s"), Z("0")>>,
  <<I("v/i"), Z("0")>>, <<I("v/i"), Z("-9223372036854775808")>>, <<I("v/i"), Z("9223372036854775807")>>, <<I("v/i"), <<"float", "0">>>>, <<I("v/i"), <<"id", 5>>>>,
  <<I("v/b"), <<"bool", "false">>>>, <<I("v/b"), <<"bool", "true">>>>, <<I("v/b"), Z("1")>>,
  <<I("v/f"), <<"float", "0">>>>, <<I("v/f"), <<"float", "0", "neg">>>>, <<I("v/f"), <<"float", "NaN">>>>, <<I("v/f"), <<"float", "-Inf">>>>, <<I("v/f"), Z("0")>>,
  <<I("v/fm"), <<"float", "NaN">>>>, <<I("v/fm"), <<"float", "0">>>>, <<I("v/fm"), <<"float", "0", "neg">>>>, <<I("v/fm"), <<"float", "5e-324">>>>,
  <<I("v/fi"), <<"float", "NaN">>>>, <<I("v/fi"), <<"float", "0", "neg">>>>, <<I("v/fi"), <<"float", "+Inf">>>>,
  <<I("v/t"), <<"inst", "1">>>>, <<I("v/t"), <<"inst", "1", "z">>>>, <<I("v/t"), <<"inst", "1", "s">>>>, <<I("v/t"), <<"inst", "-62135596800000">>>>, <<I("v/t"), Z("1")>>, <<I("v/t"), S("1")>>,
  <<I("v/ti"), <<"inst", "-1">>>>, <<I("v/ti"), <<"inst", "-1", "z">>>>, <<I("v/ti"), <<"inst", "-1", "s">>>>, <<I("v/ti"), <<"inst", "0">>>>,
  <<I("v/r"), N("e1")>>, <<I("v/r"), S("a")>>, <<I("v/r"), <<"bool", "true">>>>, <<I("v/r"), L(I("v/fi"), <<"float", "NaN">>)>>, <<I("v/r"), L(I("v/ti"), <<"inst", "-1", "z">>)>>,
  <<I("v/r"), L(I("v/fi"), <<"float", "0", "neg">>)>>, <<I("v/sm"), S("~bad")>>, <<I("v/sm"), S("~long")>>, <<I("v/sm"), S("~empty")>>, <<I("v/s"), I("v/s")>>, <<I("v/i"), Nil>> >>
ValuesClaims ==
  Product(<<N("e1"), X("x")>>, ValuesAV, LAMBDA e, p : Say(e, p[1], p[2]))
  \o [n \in DOMAIN ValuesAV |-> Deny(N("e1"), ValuesAV[n][1], ValuesAV[n][2])]
  \o <<Say(L(I("v/fi"), <<"float", "NaN">>), I("v/s"), S("a")), Say(L(I("v/ti"), <<"inst", "-1", "s">>), I("v/s"), S("a")), Say(L(I("v/sm"), S("~bad")), I("v/s"), S("a"))>>
ValuesRequests ==
  Requests(Ones(ValuesClaims)) \o Requests(SelectSeq(Twos(ValuesClaims), LAMBDA cs : cs[1][2] = cs[2][2]))
ValuesQueries == Product(<<Nil, N("e1"), L(I("v/fi"), <<"float", "NaN">>), L(I("v/ti"), <<"inst", "-1", "z">>)>>,
                         ValuesAV \o [n \in DOMAIN ValuesAV |-> <<Nil, ValuesAV[n][2]>>], LAMBDA e, p : <<e, p[1], p[2]>>)

----------------------------------------------------------------------------
(* Entities that are retracted, and who knew them. *)

EntitiesSetup == <<
  Req(Attribute("ai", "t/i", "string", "identity", "") \o Attribute("av", "t/v", "int", "value", "")
      \o Attribute("ap", "t/p", "string", "", "many") \o Attribute("ar", "t/r", "ref", "", "many") \o Attribute("aq", "t/q", "ref", "identity", "")),
  Req(<<Say(X("e1"), I("sys/db/ident"), S("t/e1")), Say(X("e1"), I("t/i"), S("a")), Say(X("e1"), I("t/v"), Z("1")), Say(X("e1"), I("t/p"), S("a")), Say(X("e1"), I("t/p"), S("b")),
        Say(X("e2"), I("t/r"), X("e1")), Say(X("e2"), I("t/r"), X("e2")), Say(X("e2"), I("t/q"), X("e1")),
        Say(X("e3"), I("t/q"), X("e2")), Say(X("e3"), I("t/i"), S("b"))>>) >>

EntitiesOf1 == << N("e1"), I("t/e1"), L(I("t/i"), S("a")), L(I("t/v"), Z("1")) >>
EntitiesRefs == EntitiesOf1 \o << N("e2"), N("e3"), L(I("t/q"), N("e1")), L(I("t/i"), S("b")), L(I("t/i"), S("c")), I("t/none"), I("t/p"), <<"id", 0>>, Nil >>
EntitiesClaims == <<
  Say(N("e1"), I("t/p"), S("a")), Say(N("e1"), I("t/p"), S("c")), Deny(N("e1"), I("t/p"), S("a")), Say(I("t/e1"), I("t/p"), S("c")), Say(N("e1"), I("t/i"), S("a")),
  Say(X("x"), I("t/i"), S("a")), Say(X("x"), I("t/v"), Z("1")), Say(X("x"), I("sys/db/ident"), S("t/e1")), Say(X("x"), I("t/r"), I("t/e1")), Say(X("x"), I("t/q"), N("e1")),
  Say(N("e2"), I("t/v"), Z("1")), Say(N("e2"), I("sys/db/ident"), S("t/e1")), Say(N("e2"), I("t/r"), N("e3")), Say(N("e2"), I("t/r"), N("e1")), Deny(N("e2"), I("t/r"), N("e1")),
  Say(Txn, I("t/p"), S("c")), Say(X("x"), I("t/p"), S("a")), Say(N("e1"), I("t/none"), S("a")) >>
EntitiesRets == [n \in DOMAIN EntitiesRefs |-> <<EntitiesRefs[n]>>] \o Product(EntitiesRefs, EntitiesRefs, LAMBDA x, y : <<x, y>>)
EntitiesRequests ==
  Requests(Ones(EntitiesClaims))
  \o Product(<< << >> >> \o Ones(EntitiesClaims), EntitiesRets, LAMBDA c, r : [claims |-> c, rets |-> <<r>>])
  \o Product(Twos(EntitiesClaims), EntitiesOf1, LAMBDA c, r : [claims |-> c, rets |-> <<<<r>>>>])
  \o Product(Product(EntitiesRefs, EntitiesRefs, LAMBDA x, y : <<<<x>>, <<y>>>>), << << >> >> \o Ones(EntitiesClaims), LAMBDA r, c : [claims |-> c, rets |-> r])
  \o <<[claims |-> << >>, rets |-> << << >> >>], [claims |-> <<EntitiesClaims[2]>>, rets |-> << << >> >>]>>
EntitiesQueries == Queries(<<Nil>> \o EntitiesRefs, <<Nil, I("t/p"), I("t/r"), I("t/q"), I("sys/db/ident")>>, <<Nil, S("a"), N("e1"), I("t/e1"), S("t/e1")>>)

----------------------------------------------------------------------------
(* Names and keys that are given, moved and taken away by the request that uses them. *)

NamesSetup == <<
  Req(Attribute("ai", "m/i", "string", "identity", "") \o Attribute("av", "m/v", "int", "value", "")
      \o Attribute("ap", "m/p", "string", "", "") \o Attribute("ar", "m/r", "ref", "", "many")),
  Req(<<Say(X("e1"), I("sys/db/ident"), S("m/e1")), Say(X("e1"), I("m/i"), S("a")), Say(X("e1"), I("m/v"), Z("1")), Say(X("e2"), I("m/i"), S("b"))>>) >>

NamesMoves ==
  Product(<<X("x"), N("e1"), N("e2")>>, <<<<I("sys/db/ident"), S("m/x")>>, <<I("sys/db/ident"), S("m/e1")>>, <<I("m/i"), S("a")>>, <<I("m/i"), S("c")>>, <<I("m/v"), Z("1")>>, <<I("m/v"), Z("2")>>>>,
          LAMBDA e, p : Say(e, p[1], p[2]))
  \o <<Deny(N("e1"), I("sys/db/ident"), S("m/e1")), Deny(N("e1"), I("m/i"), S("a")), Deny(N("e1"), I("m/v"), Z("1")), Deny(I("m/e1"), I("sys/db/ident"), S("m/e1"))>>
NamesRefs == << I("m/x"), I("m/e1"), L(I("sys/db/ident"), S("m/x")), L(I("sys/db/ident"), S("m/e1")), L(I("m/i"), S("a")), L(I("m/i"), S("c")), L(I("m/v"), Z("1")), L(I("m/v"), Z("2")) >>
NamesUses == [n \in DOMAIN NamesRefs |-> Say(X("y"), I("m/r"), NamesRefs[n])] \o [n \in DOMAIN NamesRefs |-> Say(NamesRefs[n], I("m/p"), S("z"))]
             \o <<Say(X("x"), I("m/r"), I("m/x")), Say(X("x"), I("m/r"), L(I("m/i"), S("a")))>>
NamesRequests ==
  Requests(Product(NamesMoves, NamesUses, LAMBDA m, u : <<m, u>>)) \o Requests(Product(NamesUses, NamesMoves, LAMBDA u, m : <<u, m>>))
  \o Requests(Ones(NamesMoves)) \o Requests(Twos(NamesMoves))
  \o Requests(Product(Twos(NamesMoves), NamesUses, LAMBDA m, u : Append(m, u)))
  \o Product(Ones(NamesMoves), NamesRefs, LAMBDA c, r : [claims |-> c, rets |-> <<<<r>>>>])
NamesQueries == Queries(<<Nil, N("e1")>> \o NamesRefs, <<Nil, I("sys/db/ident"), I("m/r"), I("m/i"), I("m/x")>>, <<Nil, S("m/x"), S("a"), I("m/e1"), L(I("m/i"), S("a"))>>)

----------------------------------------------------------------------------

World(theme) ==
  CASE theme = "unique" -> [setup |-> UniqueSetup, requests |-> UniqueRequests, queries |-> UniqueQueries]
    [] theme = "unify" -> [setup |-> UniqueSetup, requests |-> UnifyRequests, queries |-> UniqueQueries]
    [] theme = "effects" -> [setup |-> EffectsSetup, requests |-> EffectsRequests, queries |-> EffectsQueries]
    [] theme = "schema" -> [setup |-> SchemaSetup, requests |-> SchemaRequests, queries |-> SchemaQueries]
    [] theme = "refs" -> [setup |-> RefsSetup, requests |-> RefsRequests, queries |-> RefsQueries]
    [] theme = "system" -> [setup |-> SystemSetup, requests |-> SystemRequests, queries |-> SystemQueries]
    [] theme = "values" -> [setup |-> ValuesSetup, requests |-> ValuesRequests, queries |-> ValuesQueries]
    [] theme = "entities" -> [setup |-> EntitiesSetup, requests |-> EntitiesRequests, queries |-> EntitiesQueries]
    [] theme = "names" -> [setup |-> NamesSetup, requests |-> NamesRequests, queries |-> NamesQueries]
    [] theme = "idents" -> [setup |-> IdentsSetup, requests |-> IdentsRequests, queries |-> IdentsQueries]
=============================================================================
