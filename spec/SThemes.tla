------------------------------- MODULE SThemes -------------------------------
(***************************************************************************)
(* Small worlds of structs: types, instances recorded to begin with, and a *)
(* finite universe of graphs to record and to retract.                     *)
(*                                                                         *)
(* The id <<"name", s>> is that of the instance of the setup so named.     *)
(***************************************************************************)
EXTENDS Structs

NoId == <<"id", 0>>
Id(s) == <<"name", s>>
Val(x) == <<"v", x>>
Ptr(n) == <<"at", n>>
Nil2 == <<"nil", 0>>
Word(s) == <<"str", IF s = "" THEN "~empty" ELSE s>>
Num(s) == <<"int", s>>
Truth(s) == <<"bool", s>>

Plainly(i, k, s) == [i |-> i, k |-> k, s |-> s, u |-> "", ie |-> FALSE, key |-> "", val |-> ""]
IdField == Plainly(DbIdIdent, "id", "")
Uniquely(i, k, s, u, ie) == [Plainly(i, k, s) EXCEPT !.u = u, !.ie = ie]
Type(fs) == [bad |-> "", f |-> fs]

Recording(heap, as) == [heap |-> heap, as |-> [n \in DOMAIN as |-> Ptr(as[n])], rs |-> << >>]
Retracting(heap, rs) == [heap |-> heap, as |-> << >>, rs |-> [n \in DOMAIN rs |-> Ptr(rs[n])]]
Doing(heap, as, rs) == [heap |-> heap, as |-> [n \in DOMAIN as |-> Ptr(as[n])], rs |-> [n \in DOMAIN rs |-> Ptr(rs[n])]]

Cross(As, Bs, f(_, _)) == FlattenSeq([n \in DOMAIN As |-> [m \in DOMAIN Bs |-> f(As[n], Bs[m])]])
Pairs(As, Bs) == Cross(As, Bs, LAMBDA a, b : <<a, b>>)
Triples(As, Bs, Cs) == Cross(Pairs(As, Bs), Cs, LAMBDA p, c : <<p[1], p[2], c>>)
Each(As, f(_)) == [n \in DOMAIN As |-> f(As[n])]

----------------------------------------------------------------------------
(* Links that lead to links, themselves, and those that were there, and    *)
(* that may have the key of another.                                       *)

LinkTypes ==
  [smLink |-> Type(<<IdField, Uniquely("sm/key", "scalar", "str", "identity", TRUE),
                     [Plainly("sm/val", "scalar", "int") EXCEPT !.ie = TRUE], Plainly("sm/next", "pstruct", "smLink")>>),
   smSight |-> Type(<<Uniquely("sm/key", "pscalar", "str", "identity", FALSE), Plainly("sm/next", "struct", "smTail")>>),
   smTail |-> Type(<<IdField, Plainly("sm/val", "pscalar", "int"), Plainly("sm/next", "pstruct", "smLink")>>)]

Link(id, key, val, next) == <<"s", "smLink", <<Val(id), Val(Word(key)), Val(Num(val)), next>>>>
Sight(key, next) == <<"s", "smSight", <<key, next>>>>
Ending(id, val, next) == <<"s", "smTail", <<Val(id), val, next>>>>

LinkSetup == << Recording(<<Link(NoId, "a", "1", Ptr(2)), Link(NoId, "", "1", Nil2)>>, <<1, 2>>) @@ [names |-> <<"x", "y">>] >>

LinkRequests ==
  LET ids == <<NoId, Id("x"), Id("y")>>
      keys == <<"", "a", "b">>
      vals == <<"0", "1">>
      ends == Pairs(Pairs(ids, keys), vals)
      bits == Pairs(Pairs(<<NoId, Id("x")>>, <<"", "a">>), vals)
  IN Cross(ends, <<Nil2, Ptr(1)>>, LAMBDA p, n : Recording(<<Link(p[1][1], p[1][2], p[2], n)>>, <<1>>))
     \o Cross(bits, Cross(ends, <<Nil2, Ptr(1), Ptr(2)>>, LAMBDA q, n : Link(q[1][1], q[1][2], q[2], n)),
              LAMBDA p, l : Recording(<<Link(p[1][1], p[1][2], p[2], Ptr(2)), l>>, <<1>>))
     \o Cross(Pairs(<<"", "a", "b">>, <<"", "a", "b">>), Triples(<<"", "b">>, <<Ptr(1), Ptr(2), Ptr(3)>>, <<Nil2, Ptr(1), Ptr(2), Ptr(3)>>),
              LAMBDA p, q : Recording(<<Link(NoId, p[1], "0", Ptr(2)), Link(NoId, p[2], "0", q[2]), Link(NoId, q[1], "0", q[3])>>, <<1>>))
     \o Cross(bits, ends, LAMBDA p, q : Recording(<<Link(p[1][1], p[1][2], p[2], Nil2), Link(q[1][1], q[1][2], q[2], Ptr(1))>>, <<1, 2>>))
     \o <<Recording(<<Link(NoId, "b", "1", Nil2)>>, <<1, 1>>), Recording(<<Link(NoId, "", "1", Nil2)>>, <<1, 1>>)>>
     \o Cross(<<Nil2, Val(Word("")), Val(Word("a")), Val(Word("b"))>>,
              Triples(<<NoId, Id("x"), Id("y")>>, <<Nil2, Val(Num("0")), Val(Num("2"))>>, <<Nil2, Ptr(3)>>),
              LAMBDA k, t : Recording(<<Sight(k, Ptr(2)), Ending(t[1], t[2], t[3]), Link(NoId, "b", "0", Nil2)>>, <<1>>))
     \o Each(Pairs(ids, keys), LAMBDA p : Retracting(<<Link(p[1], p[2], "1", Nil2)>>, <<1>>))
     \o Each(keys, LAMBDA k : Retracting(<<Sight(Val(Word(k)), Ptr(2)), Ending(NoId, Nil2, Nil2)>>, <<1>>))
     \o Cross(Pairs(keys, vals), Pairs(ids, keys), LAMBDA p, q : Doing(<<Link(NoId, p[1], p[2], Nil2), Link(q[1], q[2], "0", Nil2)>>, <<1>>, <<2>>))
     \o Cross(ids, keys, LAMBDA x, k : Retracting(<<Link(x, "", "0", Nil2), Link(NoId, k, "0", Ptr(1))>>, <<1, 2>>))

----------------------------------------------------------------------------
(* Slices of structs and of scalars. *)

ItemType == Type(<<IdField, Plainly("sm/label", "scalar", "str")>>)
ListTypes ==
  [smItem |-> ItemType,
   smList |-> Type(<<IdField, Uniquely("sm/list", "scalar", "str", "identity", TRUE), Plainly("sm/items", "list", "smItem"),
                     [Plainly("sm/tags", "slist", "str") EXCEPT !.val = "sm/tag"]>>)]

Item(p) == <<"s", "smItem", <<Val(p[1]), Val(Word(p[2]))>>>>

(* A list, from a node on; its items and tags are sequences in sequences   *)
(* of one, or none if they are nil.                                        *)
ListNodes(k, id, key, items, tags) ==
  LET its == IF items = << >> THEN << >> ELSE items[1] IN
  <<<<"s", "smList", <<Val(id), Val(Word(key)), IF items = << >> THEN Nil2 ELSE Ptr(k + 1), IF tags = << >> THEN Nil2 ELSE Ptr(k + 2)>>>>,
    <<"l", "", [n \in DOMAIN its |-> Ptr(k + 2 + n)]>>,
    <<"l", "", IF tags = << >> THEN << >> ELSE [n \in DOMAIN tags[1] |-> Val(Word(tags[1][n]))]>>>>
  \o [n \in DOMAIN its |-> Item(its[n])]

ListSetup == << Recording(ListNodes(1, NoId, "a", <<<< <<NoId, "x">>, <<NoId, "y">> >>>>, <<<<"x", "">>>>), <<1, 4, 5>>) @@ [names |-> <<"l", "i", "j">>] >>

SomeItems ==
  LET one == Pairs(<<NoId, Id("i"), Id("j")>>, <<"", "x">>) IN
  << << >>, << << >> >> >> \o Each(one, LAMBDA p : << <<p>> >>) \o Cross(one, one, LAMBDA p, q : << <<p, q>> >>)
  \o Cross(<<NoId, Id("j")>>, <<NoId, Id("i")>>, LAMBDA p, q : << << <<p, "x">>, <<NoId, "">>, <<q, "y">> >> >>)
SomeTags ==
  << << >>, << << >> >>, << <<"">> >>, << <<"x">> >>, << <<"x", "x">> >>, << <<"", "x">> >>, << <<"x", "y", "">> >> >>

ListRequests ==
  Cross(Pairs(<<NoId, Id("l")>>, <<"", "a", "b">>), SomeItems, LAMBDA p, its : Recording(ListNodes(1, p[1], p[2], its, << >>), <<1>>))
  \o Cross(Pairs(<<NoId, Id("l")>>, <<"", "a", "b">>), SomeTags, LAMBDA p, ts : Recording(ListNodes(1, p[1], p[2], << >>, ts), <<1>>))
  \o Cross(<<"", "b">>, SomeItems, LAMBDA k, its : Recording(ListNodes(1, NoId, k, its, << <<"y", "x">> >>), <<1>>))
  \o Cross(<<"", "a", "b">>, SomeTags,
           LAMBDA k, ts : Recording(ListNodes(1, NoId, k, << >>, ts) \o ListNodes(4, NoId, "b", << << <<NoId, "y">> >> >>, << <<"y">> >>), <<1, 4>>))
  \o Each(Pairs(<<NoId, Id("i"), Id("j"), Id("l")>>, <<"", "z">>), LAMBDA p : Recording(<<Item(p)>>, <<1>>))
  \o Each(<<Id("i"), Id("l"), NoId>>, LAMBDA x : Retracting(<<Item(<<x, "x">>)>>, <<1>>))
  \o Each(Pairs(<<NoId, Id("l"), Id("i")>>, <<"", "a", "b">>), LAMBDA p : Retracting(ListNodes(1, p[1], p[2], << >>, << >>), <<1>>))

----------------------------------------------------------------------------
(* Maps of structs, of pointers, and by id. *)

MapTypes ==
  [smItem |-> ItemType,
   smMap |-> Type(<<IdField, [Plainly("sm/named", "map", "smItem") EXCEPT !.key = "sm/label"],
                    [Plainly("sm/ptrs", "pmap", "smItem") EXCEPT !.key = "sm/label"],
                    [Plainly("sm/by-id", "map", "smItem") EXCEPT !.key = DbIdIdent]>>)]

(* An entry is <<id, label>>; those of pointers may share an item, <<"at", n>>, or be nil. *)
MapNodes(id, named, ptrs, byid) ==
  LET opt(x) == IF x = << >> THEN << >> ELSE x[1]
      ns == opt(named) ps == opt(ptrs) bs == opt(byid)
      n0 == 4 p0 == 4 + Len(ns) b0 == p0 + Len(ps)
      field(x, k) == IF x = << >> THEN Nil2 ELSE Ptr(k)
  IN <<<<"s", "smMap", <<Val(id), field(named, 2), field(ptrs, 3), field(byid, 4)>>>>,
       <<"m", "", [n \in DOMAIN ns |-> <<Word(ns[n][2]), Ptr(n0 + n)>>]>>,
       <<"m", "", [n \in DOMAIN ps |-> <<Word(ps[n][2]), IF ps[n][1][1] = "nil" THEN Nil2 ELSE Ptr(p0 + n)>>]>>,
       <<"m", "", [n \in DOMAIN bs |-> <<bs[n][1], Ptr(b0 + n)>>]>>>>
     \o [n \in DOMAIN ns |-> Item(ns[n])] \o [n \in DOMAIN ps |-> Item(IF ps[n][1][1] = "nil" THEN <<NoId, "">> ELSE ps[n])]
     \o [n \in DOMAIN bs |-> Item(bs[n])]

MapSetup == << Recording(MapNodes(NoId, << << <<NoId, "x">> >> >>, << << <<NoId, "y">> >> >>, << >>), <<1, 5, 6>>) @@ [names |-> <<"m", "i", "j">>] >>

SomeEntries ==
  << << >>, << << >> >> >>
  \o Each(Pairs(<<NoId, Id("i"), Id("j")>>, <<"", "x">>), LAMBDA p : << <<p>> >>)
  \o Cross(<<NoId, Id("i")>>, <<NoId, Id("i"), Id("j")>>, LAMBDA x, y : << << <<x, "x">>, <<y, "y">> >> >>)
SomeById ==
  << << >>, << << >> >> >> \o Each(Pairs(<<Id("i"), Id("j"), Id("m")>>, <<"", "x">>), LAMBDA p : << <<p>> >>)
  \o << << << <<Id("i"), "x">>, <<Id("j"), "x">> >> >>, << << <<Id("i"), "z">>, <<Id("j"), "">> >> >> >>

MapRequests ==
  Cross(<<NoId, Id("m")>>, SomeEntries, LAMBDA x, es : Recording(MapNodes(x, es, << >>, << >>), <<1>>))
  \o Cross(<<NoId, Id("m")>>, SomeEntries, LAMBDA x, es : Recording(MapNodes(x, << >>, es, << >>), <<1>>))
  \o Cross(<<NoId, Id("m")>>, SomeById, LAMBDA x, es : Recording(MapNodes(x, << >>, << >>, es), <<1>>))
  \o Cross(SomeEntries, SomeEntries, LAMBDA es, fs : Recording(MapNodes(NoId, es, fs, << << <<Id("i"), "x">> >> >>), <<1>>))
  \o <<Recording(MapNodes(NoId, << >>, << << <<Nil2, "x">> >> >>, << >>), <<1>>),
       Recording(MapNodes(Id("m"), << >>, << << <<NoId, "y">>, <<Nil2, "x">> >> >>, << >>), <<1>>)>>
  \o Each(Pairs(<<NoId, Id("i"), Id("j")>>, <<"", "x", "z">>), LAMBDA p : Recording(<<Item(p)>>, <<1>>))
  \o Each(<<Id("i"), Id("m"), NoId>>, LAMBDA x : Retracting(<<Item(<<x, "x">>)>>, <<1>>))
  \o Each(<<Id("j"), Id("m"), NoId>>, LAMBDA x : Retracting(MapNodes(x, << >>, << >>, << >>), <<1>>))
  \o Cross(<<Id("i"), Id("m")>>, SomeEntries, LAMBDA x, es : Doing(MapNodes(NoId, es, << >>, << >>) \o <<Item(<<x, "x">>)>>, <<1>>, <<5 + (IF es = << >> THEN 0 ELSE Len(es[1]))>>))

----------------------------------------------------------------------------
(* Structs in structs, pointers to scalars, and unique values that do not  *)
(* tell who one is.                                                        *)

EmbedTypes ==
  [smDeep |-> Type(<<Uniquely("sm/deep", "scalar", "int", "identity", FALSE)>>),
   smInner |-> Type(<<IdField, Plainly("sm/n", "scalar", "int"), Plainly("sm/flag", "pscalar", "bool"), Plainly("sm/sub", "pstruct", "smDeep")>>),
   smOuter |-> Type(<<IdField, Uniquely("sm/email", "pscalar", "str", "unique", FALSE), Uniquely("sm/phone", "scalar", "str", "unique", TRUE),
                      Plainly("sm/inner", "struct", "smInner"), Plainly("sm/maybe", "pstruct", "smInner")>>)]

Outer(id, email, phone, inner, maybe) == <<"s", "smOuter", <<Val(id), email, Val(Word(phone)), inner, maybe>>>>
Inner(id, n, flag, sub) == <<"s", "smInner", <<Val(id), Val(Num(n)), flag, sub>>>>
Deep(n) == <<"s", "smDeep", <<Val(Num(n))>>>>

EmbedSetup ==
  << Recording(<<Outer(NoId, Val(Word("a")), "p", Ptr(2), Nil2), Inner(NoId, "1", Val(Truth("true")), Ptr(3)), Deep("1")>>, <<1, 2>>)
     @@ [names |-> <<"o", "i">>] >>

EmbedRequests ==
  LET ids == <<NoId, Id("o")>>
      mails == <<Nil2, Val(Word("")), Val(Word("a")), Val(Word("b"))>>
      inners == Triples(Pairs(<<NoId, Id("i")>>, <<"0", "1">>), <<Nil2, Val(Truth("false")), Val(Truth("true"))>>, <<Nil2, Ptr(3)>>)
      inner(q) == Inner(q[1][1], q[1][2], q[2], q[3])
  IN Cross(Triples(ids, mails, <<"", "p", "q">>), <<Nil2, Ptr(2), Ptr(3)>>,
           LAMBDA p, m : Recording(<<Outer(p[1], p[2], p[3], Ptr(2), IF m = Ptr(2) THEN Ptr(3) ELSE IF m = Ptr(3) THEN Ptr(4) ELSE Nil2),
                                     Inner(NoId, "1", Nil2, Nil2), Inner(NoId, "0", Val(Truth("true")), Ptr(5)),
                                     Inner(Id("i"), "1", Nil2, Ptr(5)), Deep("2")>>, <<1>>))
     \o Cross(ids, inners, LAMBDA x, q : Recording(<<Outer(x, Nil2, "", Ptr(2), Nil2), inner(q), Deep("1")>>, <<1>>))
     \o Cross(ids, Cross(inners, <<"1", "2">>, LAMBDA q, d : <<inner(q), Deep(d)>>),
              LAMBDA x, qd : Recording(<<Outer(x, Nil2, "", Ptr(4), Ptr(2)), qd[1], qd[2], Inner(NoId, "0", Nil2, Ptr(3))>>, <<1>>))
     \o Each(inners, LAMBDA q : Recording(<<Deep("0"), inner(q), Deep("2")>>, <<2>>))
     \o Cross(<<"a", "b">>, <<"a", "b">>, LAMBDA m, n : Recording(<<Outer(NoId, Val(Word(m)), "", Ptr(3), Nil2), Outer(NoId, Val(Word(n)), "", Ptr(4), Nil2),
                                                                    Inner(NoId, "0", Nil2, Nil2), Inner(NoId, "0", Nil2, Nil2)>>, <<1, 2>>))
     \o Cross(Triples(<<NoId, Id("o"), Id("i")>>, mails, <<"", "p", "q">>), <<1>>,
              LAMBDA p, k : Retracting(<<Outer(p[1], p[2], p[3], Ptr(2), Nil2), Inner(NoId, "0", Nil2, Nil2)>>, <<k>>))
     \o Each(<<"0", "1">>, LAMBDA n : Retracting(<<Deep(n)>>, <<1>>))
     \o Cross(mails, <<Id("o"), Id("i")>>, LAMBDA m, x : Doing(<<Outer(NoId, m, "p", Ptr(3), Nil2), Inner(x, "0", Nil2, Nil2), Inner(NoId, "0", Nil2, Nil2)>>, <<1>>, <<2>>))

----------------------------------------------------------------------------

World(theme) ==
  CASE theme = "link" -> [types |-> LinkTypes, order |-> <<"smLink", "smSight", "smTail">>, setup |-> LinkSetup, requests |-> LinkRequests]
    [] theme = "list" -> [types |-> ListTypes, order |-> <<"smList">>, setup |-> ListSetup, requests |-> ListRequests]
    [] theme = "map" -> [types |-> MapTypes, order |-> <<"smMap">>, setup |-> MapSetup, requests |-> MapRequests]
    [] theme = "embed" -> [types |-> EmbedTypes, order |-> <<"smOuter">>, setup |-> EmbedSetup, requests |-> EmbedRequests]
=============================================================================
