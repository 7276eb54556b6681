-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks histories recorded from the code against Destructive.            *)
(*                                                                         *)
(* Every history of the trace is a behaviour of its own, from an initial   *)
(* state of its own.  An event is matched against what the specification   *)
(* allows in the present state; what does not conform is printed, with     *)
(* the properties it concerns, and the state goes on as observed, so that  *)
(* the rest of the history is judged too.                                  *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)

(* TLC computes definitions and arguments once when it evaluates an         *)
(* expression, but anew for every use when it evaluates an action: hence    *)
(* the TLCEval around the judgements in the actions.                        *)

VARIABLES h, i, D, hw, snaps, rejected

vars == <<h, i, D, hw, snaps, rejected>>

Ev(hh, ii) == Histories[hh].events[ii]
Names(D2, e, hh, ii, props) ==
  LET I == Idents(D2) AI == AttrIdents(D2) IN
  /\ Fail(Set(e.ids) = I, hh, ii, "idents", props \cup {"C12"}, <<Set(e.ids) \ I, I \ Set(e.ids)>>)
  /\ Fail(Set(e.aids) = AI, hh, ii, "attribute idents", props \cup {"C12"}, <<Set(e.aids) \ AI, AI \ Set(e.aids)>>)

----------------------------------------------------------------------------

WriteConforms(e, hh, ii, D0, hw0, rej0) ==
  LET M == Meta(D0)
      \* Some ids may have been issued that nobody was told, but none that come after that of the transaction.
      hw1 == IF e.ok /\ e.id > hw0 THEN e.id - 1 ELSE hw0
      X == Evaluate(D0, M, hw1, e.req)
      D2 == After(D0, e)
      temps == Set(e.temps)
      tempOf == TLCEval([s \in {p[1] : p \in temps} |-> (CHOOSE p \in temps : p[1] = s)[2]])
      id(x) == CASE x[1] = "e" -> x[2] [] x[1] = "txn" -> e.id [] OTHER -> tempOf[x[2]]
      props == ReqProps(M, e.req, X.claims)
      must == X.rej = {} /\ ~X.may
      tempsRight ==
        /\ DOMAIN tempOf = DOMAIN X.rep
        /\ Cardinality(temps) = Cardinality(DOMAIN tempOf)
        /\ \A s \in DOMAIN tempOf :
             LET x == X.rep[s] IN
             /\ x[1] = "e" => tempOf[s] = x[2]
             /\ x[1] = "txn" => tempOf[s] = e.id
             /\ x[1] = "temp" => /\ tempOf[s] > hw0 /\ tempOf[s] # e.id
                                 /\ \A r \in DOMAIN tempOf : (tempOf[r] = tempOf[s]) <=> (X.rep[r] = x)
      want == IF tempsRight THEN Effect(D0, M, Concrete(X.claims, id), X.gone, e.id) ELSE {}
      diff == (want \ D2) \cup (D2 \ want)
      reasonProps == UNION {ReasonProps(r) : r \in X.rej}
  IN
  /\ PrintT("@@W " \o ToString(<<hh, ii, e.ok, X.rej, X.may, Len(e.req.claims), Len(e.req.rets)>>))
  /\ IF e.panic # "" THEN
       /\ Fail(FALSE, hh, ii, "write panics", {"C29", "C20"} \cup props \cup reasonProps, e.panic)
       /\ Fail(D2 = D0, hh, ii, "state changes by a panic", {"C01", "C29"}, D2)
     ELSE
     /\ Fail("kept" \in DOMAIN e => e.kept, hh, ii, "the request is changed", {"C30"}, e.req)
     /\ Fail("past" \in DOMAIN e => e.past, hh, ii, "an earlier response is changed", {"C30"}, 0)
     /\ Fail(~e.snil, hh, ii, "no snapshot in response", {"C01", "C29"}, 0)
     /\ Fail(e.rdiff = << >>, hh, ii, "response snapshot", {"C01", "C02"}, e.rdiff)
     /\ Fail(e.n = Cardinality(D2), hh, ii, "datums selected several times", {"C13", "C14"}, <<e.n, Cardinality(D2)>>)
     /\ IF e.ok THEN
          /\ Fail(X.rej = {}, hh, ii, "accepted", reasonProps \cup (IF D2 = D0 THEN {} ELSE {"C01"}), <<X.rej, e.req>>)
          /\ Fail(e.id > hw0, hh, ii, "transaction id", {"C08"}, <<e.id, hw0>>)
          /\ X.rej = {} =>
               /\ Fail(tempsRight, hh, ii, "temp ids", {"C06", "C08"} \cup (props \cap {"C07"}), <<temps, X.rep, e.req>>)
               /\ tempsRight =>
                    Fail(diff = {}, hh, ii, "effect",
                         (props \cap {"C01", "C03", "C06", "C16", "C18"})
                         \cup UNION {DatumProps(D0 \cup want, M, X.gone, d) : d \in diff}
                         \cup (IF \E d \in diff : T(d) # e.id /\ d \notin D0 THEN {"C08"} ELSE {}),
                         <<want \ D2, D2 \ want, e.req>>)
        ELSE
          /\ Fail(~must, hh, ii, "rejected", props \ (IF rej0 THEN {} ELSE {"C01"}), <<e.err, e.req>>)
          /\ Fail(D2 = D0, hh, ii, "rejected but changed", {"C01"} \cup reasonProps, <<D0 \ D2, D2 \ D0, e.req>>)
          /\ Fail(e.id = 0 /\ e.temps = << >>, hh, ii, "ids in rejection", {"C01"}, <<e.id, e.temps>>)
  /\ Invariants(D2, hh, ii)
  /\ Fail(AttributesKept(M, Meta(D2)), hh, ii, "an attribute changes", {"C10"}, e.req)
  /\ Names(D2, e, hh, ii, IF e.ok THEN {} ELSE {"C01"})

----------------------------------------------------------------------------

QueryConforms(e, hh, ii, S, old) ==
  LET M == Meta(S)
      c == e.c
      kinds == RefKinds(c[1]) \cup RefKinds(c[2]) \cup RefKinds(c[3])
      want == Matching(S, M, c)
      got == Set(e.seq)
      odd == \/ kinds \cap {"ident", "lookup", "temp", "txn", "bad"} # {}
             \/ QE(S, M, c) = -1 \/ QA(S, M, c) = -1
             \/ QA(S, M, c) > 0 /\ QV(S, M, c) # Nil /\ ~Typed(M, QA(S, M, c), QV(S, M, c))
      props == {"C13"} \cup (IF old THEN {"C02"} ELSE {})
               \cup (IF "conc" \in DOMAIN e THEN {"C19", "C20"} ELSE {})
               \cup (IF odd THEN {"C15"} ELSE {})
               \cup (IF kinds \cap {"temp", "txn", "bad", "nil"} # {} THEN {"C29"} ELSE {})
               \cup (IF (c[3][1] \in Types /\ IsSpecial(c[3])) \/ \E d \in (want \ got) \cup (got \ want) : IsSpecial(V(d)) THEN {"C18"} ELSE {})
  IN IF e.panic # "" THEN Fail(FALSE, hh, ii, "query panics", props \cup {"C29", "C14", "C20"}, <<e.panic, c>>)
     ELSE
     /\ Fail(got = want, hh, ii, "selection", props, <<c, want \ got, got \ want>>)
     /\ Fail(Once(e.seq), hh, ii, "datums selected several times", {"C13", "C14"}, c)
     /\ Fail(Ordered(e.seq), hh, ii, "order", {"C14"} \cup (props \cap {"C02"}), <<c, e.seq>>)
     /\ Fail(e.prefix, hh, ii, "iteration broken off", {"C14"} \cup (props \cap {"C02"}), c)
     /\ Fail(e.again, hh, ii, "iterated again", {"C14"} \cup (props \cap {"C02"}), c)
     /\ Fail(e.count = Cardinality(want), hh, ii, "count", props, <<c, e.count, Cardinality(want)>>)
     /\ Fail(e.has = (want # {}), hh, ii, "has", props, <<c, e.has>>)
     /\ PrintT("@@Q " \o ToString(<<hh, ii, kinds, Cardinality(want)>>))

ObsConforms(e, hh, ii, S) ==
  LET conc == IF "conc" \in DOMAIN e THEN {"C19", "C20"} ELSE {} IN
  IF e.panic # "" THEN Fail(FALSE, hh, ii, "snapshot panics", {"C02", "C29", "C20"} \cup conc, e.panic)
  ELSE /\ Fail(e.add = << >> /\ e.del = << >>, hh, ii, "snapshot changed", {"C02", "C30"} \cup conc, <<e.add, e.del>>)
       /\ Fail(e.n = Cardinality(S), hh, ii, "snapshot changed in size", {"C02"} \cup conc, <<e.n, Cardinality(S)>>)
       /\ Fail("views" \in DOMAIN e => e.views = << >>, hh, ii, "the views of a snapshot differ", {"C02", "C13"}, e.views)
       /\ Names(S, e, hh, ii, {"C02"} \cup conc)

----------------------------------------------------------------------------

Init ==
  /\ h \in DOMAIN Histories
  /\ i = 1
  /\ D = Set(Ev(h, 1).data)
  /\ hw = Ev(h, 1).hw
  /\ snaps = << >>
  /\ rejected = FALSE

(* The first event shows the new database. *)
New ==
  /\ i = 1
  /\ LET e == Ev(h, 1) IN
     /\ Fail(e.panic = "", h, i, "new database panics", {"C29", "C11"}, e.panic)
     /\ Fail(D = SysDatums /\ e.n = Cardinality(SysDatums), h, i, "bootstrap datums", {"C11"}, <<D \ SysDatums, SysDatums \ D>>)
     /\ Names(D, e, h, i, {"C11"})
  /\ UNCHANGED <<D, hw, snaps, rejected>>

Write ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "w"
  /\ TLCEval(WriteConforms(e, h, i, D, hw, rejected))
  /\ D' = After(D, e)
  /\ hw' = LET S == {hw, e.id} \cup {p[2] : p \in Set(e.temps)} IN CHOOSE x \in S : \A y \in S : y <= x
  /\ rejected' = (rejected \/ ~e.ok)
  /\ UNCHANGED snaps

Query ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "q"
  /\ TLCEval(QueryConforms(e, h, i, IF e.s = 0 THEN D ELSE snaps[e.s], e.s # 0))
  /\ UNCHANGED <<D, hw, snaps, rejected>>

Keep ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "snap"
  /\ snaps' = (e.s :> D) @@ snaps
  /\ UNCHANGED <<D, hw, rejected>>

Drop ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "drop"
  /\ snaps' = TLCEval([k \in DOMAIN snaps \ {e.s} |-> snaps[k]])
  /\ UNCHANGED <<D, hw, rejected>>

(* A state is marked, and the database is made anew until it is as it was then. *)
Mark ==
  /\ i > 1 /\ Ev(h, i).k = "mark"
  /\ snaps' = (0 :> D) @@ snaps
  /\ UNCHANGED <<D, hw, rejected>>

Back ==
  /\ i > 1 /\ Ev(h, i).k = "back"
  /\ D' = snaps[0]
  /\ hw' = Ev(h, i).hw
  /\ rejected' = FALSE
  /\ UNCHANGED snaps

Observe ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "obs"
  /\ TLCEval(ObsConforms(e, h, i, IF e.s = 0 THEN D ELSE snaps[e.s]))
  /\ UNCHANGED <<D, hw, snaps, rejected>>

(* When all is done, nothing is still going on, and no iteration waits to  *)
(* be resumed.                                                             *)
Rest ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "rest"
  /\ Fail(e.left = 0, h, i, "something goes on", {"C32"}, e.left)
  /\ UNCHANGED <<D, hw, snaps, rejected>>

Next ==
  /\ i <= Len(Histories[h].events)
  /\ New \/ Write \/ Query \/ Keep \/ Drop \/ Observe \/ Rest \/ Mark \/ Back
  /\ i' = i + 1
  /\ h' = h

Spec == Init /\ [][Next]_vars
=============================================================================
