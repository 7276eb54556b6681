-------------------------------- MODULE STrace --------------------------------
(***************************************************************************)
(* Checks histories of structs recorded, retracted and found against       *)
(* Structs and Destructive, datum by datum.                                *)
(***************************************************************************)
EXTENDS Structs, Judge, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, i, D, hw, snaps

vars == <<h, i, D, hw, snaps>>

Ev(hh, ii) == Histories[hh].events[ii]
Ty(hh) == Ev(hh, 1).types

----------------------------------------------------------------------------

(* Whether observed ids agree with what the temp ids stand for. *)
IdsAgree(rep, ids, txn, hw0) ==
  /\ DOMAIN rep \subseteq DOMAIN ids
  /\ \A s \in DOMAIN rep :
       LET x == rep[s] IN
       /\ x[1] = "e" => ids[s] = x[2]
       /\ x[1] = "temp" => ids[s] > hw0 /\ ids[s] # txn
  /\ LET n == Cardinality({<<rep[s], ids[s]>> : s \in DOMAIN rep}) IN
       n = Cardinality({rep[s] : s \in DOMAIN rep}) /\ n = Cardinality({ids[s] : s \in DOMAIN rep})

SchemaConforms(e, hh, ii, D0, hw0) ==
  LET T0 == Ty(hh)
      ok == Recordable(T0, e.t)
      M == Meta(D0)
      D2 == After(D0, e)
      X == IF ok THEN Evaluate(D0, M, hw0, SchemaRequest(T0, e.t)) ELSE [rej |-> {"bad"}, rep |-> EmptyRep, claims |-> << >>]
      I == Idents(D2)
      ids == TLCEval([s \in DOMAIN X.rep |->
                LET c == {p \in I : "attr " \o p[1] = s} IN IF c = {} THEN 0 ELSE (CHOOSE p \in c : TRUE)[2]])
      right == IdsAgree(X.rep, ids, e.id, hw0)
      id(x) == CASE x[1] = "e" -> x[2] [] x[1] = "txn" -> e.id [] OTHER -> ids[x[2]]
      want == IF right THEN Effect(D0, M, Concrete(X.claims, id), {}, e.id) ELSE {}
      P == {"C26", "C10", "C22", "C23", "C24", "C25", "C27", "C28"}
      \* Ids that are not unsigned integers make a type unfit to be recorded; whether its schema is accepted is not specified.
      open == ~ok /\ e.t \in DOMAIN T0 /\ \A u \in TypesFrom(T0, e.t) : T0[u].bad \in {"", "id"}
  IN
  /\ PrintT("@@S " \o ToString(<<hh, ii, e.ok, X.rej, e.t>>))
  /\ IF e.panic # "" THEN Fail(FALSE, hh, ii, "schema panics", P \cup {"C29", "C20"}, <<e.t, e.panic>>)
     ELSE
     /\ Fail(e.n = Cardinality(D2), hh, ii, "datums selected several times", {"C13", "C14"}, e.t)
     /\ IF e.ok THEN
          /\ Fail(X.rej = {} \/ open, hh, ii, "schema accepted", P \cup {"C29"}, <<e.t, X.rej>>)
          /\ X.rej = {} =>
               /\ Fail(right, hh, ii, "attributes declared", P \cup {"C12", "C08"}, <<e.t, X.rep, ids>>)
               /\ right => Fail(want = D2, hh, ii, "schema", P \cup {"C08", "C12"}, <<e.t, want \ D2, D2 \ want>>)
        ELSE
          /\ Fail(X.rej # {}, hh, ii, "schema rejected", P, <<e.t, e.err>>)
          /\ Fail(D2 = D0, hh, ii, "schema rejected but changed", P \cup {"C01"}, <<e.t, D0 \ D2, D2 \ D0>>)
  /\ Invariants(D2, hh, ii)
  /\ Fail(AttributesKept(M, Meta(D2)), hh, ii, "an attribute changes", {"C10", "C26"}, e.t)

DataConforms(e, hh, ii, D0, hw0) ==
  LET T0 == Ty(hh)
      ok == GraphOk(T0, e.heap, e.as, e.rs)
      M == Meta(D0)
      D2 == After(D0, e)
      none == [rej |-> {"bad"}, rep |-> EmptyRep, claims |-> << >>, gone |-> {}]
      req == IF ok THEN GraphRequest(T0, e.heap, e.as, e.rs) ELSE [claims |-> << >>, rets |-> << >>]
      X == IF ok THEN Evaluate(D0, M, hw0, req) ELSE none
      map == Set(e.map)
      ids == TLCEval([s \in {p[1] : p \in map} |-> (CHOOSE p \in map : p[1] = s)[2]])
      right == IdsAgree(X.rep, ids, e.id, hw0)
      id(x) == CASE x[1] = "e" -> x[2] [] x[1] = "txn" -> e.id [] OTHER -> ids[x[2]]
      want == IF right THEN Effect(D0, M, Concrete(X.claims, id), X.gone, e.id) ELSE {}
      nodes == IF ok THEN NodesFrom(T0, e.heap, Roots(e.as)) ELSE {}
      P == {"C28"} \cup (IF Len(e.as) > 0 THEN {"C22", "C23", "C24", "C27"} ELSE {}) \cup (IF Len(e.rs) > 0 THEN {"C25"} ELSE {})
      fresh == \A s \in DOMAIN X.rep : X.rep[s] = <<"temp", s>>
      M2 == Meta(D2)
      sh == Shelf(D2)
      val(x, ident) == ValuesIn(sh, x, ident)
      allNew == \A n \in nodes : IdAt(T0, e.heap, n) = 0 /\ NodeName(n) \in DOMAIN X.rep
  IN
  /\ PrintT("@@D " \o ToString(<<hh, ii, e.ok, X.rej, Cardinality(nodes), Len(req.claims), Len(req.rets), fresh>>))
  /\ IF e.panic # "" THEN
       /\ Fail(FALSE, hh, ii, "recording panics", P \cup {"C29", "C20"}, e.panic)
       /\ Fail(D2 = D0, hh, ii, "state changes by a panic", {"C01", "C29"}, D2)
     ELSE
     /\ Fail(e.n = Cardinality(D2), hh, ii, "datums selected several times", {"C13", "C14"}, 0)
     /\ Fail("kept" \in DOMAIN e => e.kept, hh, ii, "the request is changed", {"C30"}, req)
     /\ Fail("past" \in DOMAIN e => e.past, hh, ii, "an earlier response is changed", {"C30"}, 0)
     /\ IF e.ok THEN
          /\ Fail(X.rej = {}, hh, ii, "recording accepted", P \cup {"C05", "C29"}, <<X.rej, req>>)
          /\ Fail(e.id > hw0, hh, ii, "transaction id", {"C08"}, <<e.id, hw0>>)
          /\ X.rej = {} =>
               /\ Fail(Len(e.ids) = Len(e.as), hh, ii, "ids", P, <<e.as, e.ids>>)
               /\ Fail(right, hh, ii, "entities recorded", P \cup {"C06"}, <<X.rep, map, req, Set(e.add)>>)
               /\ right =>
                    /\ Fail(\A j \in DOMAIN e.as : j \in DOMAIN e.ids =>
                              LET r == NodeRef(T0, e.heap, e.as[j][2]) IN
                              e.ids[j] = (IF r[1] = "id" THEN r[2] ELSE IF r[2] \in DOMAIN X.rep THEN ids[r[2]] ELSE e.ids[j]),
                            hh, ii, "ids", P, <<e.as, e.ids, map>>)
                    /\ Fail(want = D2, hh, ii, "recorded", P, <<want \ D2, D2 \ want, req>>)
                    /\ (want = D2 /\ fresh /\ allNew /\ e.rs = << >>) =>
                         /\ Fail(RecordedExactly(T0, e.heap, nodes, ids, val), hh, ii, "recorded exactly", P, req)
                         /\ PrintT("@@R " \o ToString(<<hh, ii, Cardinality(nodes)>>))
        ELSE
          /\ Fail(X.rej # {}, hh, ii, "recording rejected", P, <<e.err, req>>)
          /\ Fail(D2 = D0, hh, ii, "rejected but changed", P \cup {"C01"}, <<D0 \ D2, D2 \ D0, req>>)
  /\ Invariants(D2, hh, ii)
  /\ Fail(AttributesKept(M, M2), hh, ii, "an attribute changes", {"C10", "C26"}, 0)

(* An entity found as a struct. *)
FindConforms(e, hh, ii, S, old, T0) ==
  LET sh == Shelf(S)
      val(x, ident) == ValuesIn(sh, x, ident)
      is(x) == Known(sh, x)
      plain == Plain(T0, val, is, e.t, e.e)
      R == Shown(T0, e.heap, val, is, {<<e.root, e.t, e.e, TRUE>>}, {})
      P == {"C22", "C23", "C24", "C25", "C27", "C28"} \cup (IF old THEN {"C02"} ELSE {})
           \cup (IF e.re THEN {"C30"} ELSE {}) \* what was found before has been changed by its owner
  IN IF e.panic # "" THEN Fail(FALSE, hh, ii, "finding panics", P \cup {"C29", "C20"}, <<e.t, e.e, e.panic>>)
     ELSE IF ~is(e.e) THEN Fail(~e.found, hh, ii, "found what is not there", P, <<e.t, e.e, e.heap>>)
     ELSE IF ~plain THEN PrintT("@@F " \o ToString(<<hh, ii, "open", e.t>>))
     ELSE IF ~e.found THEN Fail(FALSE, hh, ii, "not found", P, <<e.t, e.e, e.err, {d \in S : E(d) = e.e}>>)
     ELSE /\ Fail(R.wrong = {}, hh, ii, "found", P,
                  <<e.t, e.e, R.wrong, {e.heap[ob[1]] : ob \in R.wrong}, {d \in S : \E ob \in R.wrong : E(d) = ob[3]}>>)
          /\ R.wrong = {} => Fail(PointersAgree(R.done), hh, ii, "shape", P, <<e.t, e.e, R.done>>)
          /\ PrintT("@@F " \o ToString(<<hh, ii, e.t, Cardinality(R.done), Len(e.heap), old>>))

----------------------------------------------------------------------------

Init ==
  /\ h \in DOMAIN Histories
  /\ i = 1
  /\ D = Set(Ev(h, 1).data)
  /\ hw = Ev(h, 1).hw
  /\ snaps = << >>

New ==
  /\ i = 1
  /\ Fail(Ev(h, 1).panic = "", h, i, "new database panics", {"C29"}, Ev(h, 1).panic)
  /\ UNCHANGED <<D, hw, snaps>>

Schema ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "schema"
  /\ TLCEval(SchemaConforms(e, h, i, D, hw))
  /\ D' = After(D, e) /\ hw' = e.hw
  /\ UNCHANGED snaps

Data ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "data"
  /\ TLCEval(DataConforms(e, h, i, D, hw))
  /\ D' = After(D, e) /\ hw' = e.hw
  /\ UNCHANGED snaps

Find ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "find"
  /\ TLCEval(FindConforms(e, h, i, IF e.s = 0 THEN D ELSE snaps[e.s], e.s # 0, Ty(h)))
  /\ UNCHANGED <<D, hw, snaps>>

Keep ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "snap"
  /\ snaps' = (e.s :> D) @@ snaps
  /\ UNCHANGED <<D, hw>>

Drop ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "drop"
  /\ snaps' = TLCEval([k \in DOMAIN snaps \ {e.s} |-> snaps[k]])
  /\ UNCHANGED <<D, hw>>

(* Structs of types that cannot be declared are shredded, to whatever end. *)
Shredded ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "shred"
  /\ Fail(e.panic = "", h, i, "shredding panics", {"C29", "C26"}, <<e.t, e.panic>>)
  /\ UNCHANGED <<D, hw, snaps>>

(* A state is marked, and the database is made anew until it is as it was then. *)
Mark ==
  /\ i > 1 /\ Ev(h, i).k = "mark"
  /\ snaps' = (0 :> D) @@ snaps
  /\ UNCHANGED <<D, hw>>

Back ==
  /\ i > 1 /\ Ev(h, i).k = "back"
  /\ D' = snaps[0] /\ hw' = Ev(h, i).hw
  /\ UNCHANGED snaps

(* When all is done, nothing is still going on, and no iteration waits to  *)
(* be resumed.                                                             *)
Rest ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "rest"
  /\ Fail(e.left = 0, h, i, "something goes on", {"C32"}, e.left)
  /\ UNCHANGED <<D, hw, snaps>>

Next ==
  /\ i <= Len(Histories[h].events)
  /\ New \/ Schema \/ Data \/ Find \/ Keep \/ Drop \/ Shredded \/ Rest \/ Mark \/ Back
  /\ i' = i + 1
  /\ h' = h

Spec == Init /\ [][Next]_vars
=============================================================================
