-------------------------------- MODULE ITrace --------------------------------
(***************************************************************************)
(* Checks histories recorded from the indexes against Indexes.             *)
(*                                                                         *)
(* The state holds a set of datums for every index of the history, by its  *)
(* handle.  A clone is an index of its own from the moment it is made, so  *)
(* whatever leaks from one to the other shows as an answer that is not of  *)
(* its set.                                                                *)
(***************************************************************************)
EXTENDS Indexes, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, i, ix      \* ix: handle -> [kind, set]

vars == <<h, i, ix>>

Set(s) == {s[k] : k \in DOMAIN s}

Fails(ok, kind, props, detail) ==
  IF ok THEN TRUE ELSE PrintT("@@FAIL " \o ToString(<<h, i, kind, props, detail>>))

Fail(ok, kind, detail) == Fails(ok, kind, {"C21"}, detail)

Ev == Histories[h].events[i]


Init ==
  /\ h \in DOMAIN Histories
  /\ i = 1
  /\ ix = << >>

Open ==
  LET e == Ev IN
  /\ e.k = "new"
  /\ ix' = (e.s :> [kind |-> e.kind, set |-> {}]) @@ ix

Clone ==
  LET e == Ev IN
  /\ e.k = "clone"
  /\ Fail(e.panic = "", "index panics", <<e.k, e.panic>>)
  /\ ix' = (e.s :> ix[e.of]) @@ ix

Drop ==
  LET e == Ev IN
  /\ e.k = "drop"
  /\ ix' = TLCEval([k \in DOMAIN ix \ {e.s} |-> ix[k]])

Change ==
  LET e == Ev IN
  /\ e.k \in {"ins", "del"}
  /\ \E R \in {TLCEval(IF e.k = "ins" THEN Batch(ix[e.s].set, Inserted, e.ds) ELSE Batch(ix[e.s].set, Deleted, e.ds))} :
       /\ PrintT("@@" \o e.k \o " " \o ToString(<<h, i, ix[e.s].kind, Len(e.ds), Cardinality(R.set)>>))
       /\ Fail(e.panic = "", "index panics", <<e.k, e.panic>>)
       /\ e.panic = "" => Fail(e.was = R.was, "extant", <<e.k, e.ds, e.was, R.was>>)
       /\ ix' = [ix EXCEPT ![e.s].set = R.set]

Find ==
  LET e == Ev IN
  /\ e.k = "find"
  /\ Fail(e.panic = "", "index panics", <<e.k, e.panic>>)
  /\ e.panic = "" =>
       \E want \in {TLCEval([n \in DOMAIN e.ds |-> Has(ix[e.s].set, e.ds[n])])} :
         /\ Fail(e.was = want, "find", <<ix[e.s].kind, e.ds, e.was, want>>)
         /\ PrintT("@@find " \o ToString(<<h, i, ix[e.s].kind, Set(want)>>))
  /\ UNCHANGED ix

(* A sequence, together with Count and First for the same partial key, of  *)
(* an index whose set does not change while the sequence is being read.    *)
Select ==
  LET e == Ev IN
  /\ e.k = "sel"
  /\ Fail(e.panic = "", "index panics", <<e.k, e.panic, e.p, e.q>>)
  /\ e.panic = "" =>
       \E want \in {TLCEval(Selection(ix[e.s].set, e.p, e.q))} :
       \E got \in {TLCEval(Set(e.seq))} :
         LET kind == ix[e.s].kind IN
         /\ Assert(e.p \in Partials(kind), "the harness asks what the index does not support")
         /\ Fail(got = want, "selection", <<kind, e.p, e.q, want \ got, got \ want>>)
         /\ Fail(Ascending(kind, e.seq), "order", <<kind, e.p, e.q, e.seq>>)
         /\ Fail(e.prefix, "iteration broken off", <<kind, e.p, e.q>>)
         /\ Fail(e.again, "iterated again", <<kind, e.p, e.q>>)
         /\ e.p # "all" =>
              /\ Fail(e.count = Cardinality(want), "count", <<kind, e.p, e.q, e.count, Cardinality(want)>>)
              /\ Fail(e.has = (want # {}), "first, whether", <<kind, e.p, e.q, e.has>>)
              /\ e.has => Fail(IsFirst(kind, want, e.first), "first", <<kind, e.p, e.q, e.first>>)
         /\ PrintT("@@sel " \o ToString(<<h, i, kind, e.p, Cardinality(want), Cardinality(ix[e.s].set)>>))
  /\ UNCHANGED ix

(* When all is done, no iteration waits to be resumed. *)
Rest ==
  /\ Ev.k = "rest"
  /\ Fails(Ev.left = 0, "something goes on", {"C32"}, Ev.left)
  /\ UNCHANGED ix

Next ==
  /\ i <= Len(Histories[h].events)
  /\ Open \/ Clone \/ Drop \/ Change \/ Find \/ Select \/ Rest
  /\ i' = i + 1
  /\ h' = h

Spec == Init /\ [][Next]_vars
=============================================================================
