-------------------------------- MODULE PTrace --------------------------------
(***************************************************************************)
(* Checks histories of the public database: structs written, and found     *)
(* again in its snapshots.                                                 *)
(*                                                                         *)
(* Nothing else is seen of the database.  The specification works on       *)
(* entities of its own, and learns from the ids that are returned, and     *)
(* from those in the structs found, by which ids the database knows them.  *)
(***************************************************************************)
EXTENDS Structs, Judge, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)

(* known: the specification's entities, by the ids the database gave them. *)
(* lost: whether the code went its own way, so that nothing more can be    *)
(* said of the history.                                                    *)
VARIABLES h, i, D, hw, known, snaps, lost,
          fork,   \* when several processes run: the marks of their writes, in order, and the times of these
          marked  \* the state that was marked

vars == <<h, i, D, hw, known, snaps, lost, fork, marked>>

Ev(hh, ii) == Histories[hh].events[ii]
Ty(hh) == Ev(hh, 1).types

----------------------------------------------------------------------------
(* The database's ids for the specification's. *)

Huge == 1073741824
Stranger(r) == IF r >= Huge THEN Huge ELSE 1100000000 + (r - FirstUserID)
ToSpec(K, r) == IF r < FirstUserID THEN r ELSE IF r \in DOMAIN K THEN K[r] ELSE Stranger(r)

ValSpec(K, x) == IF x[1] = "id" THEN <<"id", ToSpec(K, x[2])>> ELSE x
FieldSpec(K, x) == IF x[1] = "v" THEN <<"v", ValSpec(K, x[2])>> ELSE x
NodeSpec(K, n) ==
  <<n[1], n[2],
    [j \in DOMAIN n[3] |-> IF n[1] = "m" THEN <<ValSpec(K, n[3][j][1]), FieldSpec(K, n[3][j][2])>> ELSE FieldSpec(K, n[3][j])]>>
HeapSpec(K, hp) == TLCEval([n \in DOMAIN hp |-> NodeSpec(K, hp[n])])

(* Ids that were found where the specification does not say whose they are. *)
IsStrange(x) == x[1] = "id" /\ x[2] > Huge
Strange(heap) == \E n \in DOMAIN heap : heap[n][1] = "s" /\ \E j \in DOMAIN heap[n][3] : heap[n][3][j][1] = "v" /\ IsStrange(heap[n][3][j][2])

(* pairs: entities of the specification with ids of the database. *)
Issued(p) == p[1] >= FirstUserID /\ p[1] < Huge
Consistent(K, all) ==
  LET pairs == {p \in all : Issued(p)} IN
  /\ \A p \in all \ pairs : ToSpec(K, p[2]) = p[1]
  /\ \A p \in pairs : p[2] >= FirstUserID
  /\ \A p \in pairs : p[2] \in DOMAIN K => K[p[2]] = p[1]
  /\ \A p \in pairs : \A r \in DOMAIN K : K[r] = p[1] => r = p[2]
  /\ \A p, q \in pairs : p[1] = q[1] <=> p[2] = q[2]
Learn(K, all) ==
  LET pairs == {p \in all : Issued(p)} IN
  TLCEval([r \in {p[2] : p \in pairs} |-> (CHOOSE p \in pairs : p[2] = r)[1]] @@ K)

----------------------------------------------------------------------------
(* Requests are applied to states [D, hw, ok, ids]: ids gives the entities *)
(* of the temp ids of the last one.                                        *)

Apply(S, X) ==
  LET new == SetToSeq({X.rep[s] : s \in {s \in DOMAIN X.rep : X.rep[s][1] = "temp"}})
      t == S.hw + 1
      entity == TLCEval([k \in {new[n] : n \in DOMAIN new} |-> t + (CHOOSE n \in DOMAIN new : new[n] = k)])
      id(x) == CASE x[1] = "e" -> x[2] [] x[1] = "txn" -> t [] OTHER -> entity[x]
      M == Meta(S.D)
  IN [D |-> TLCEval(Effect(S.D, M, Concrete(X.claims, id), X.gone, t)), hw |-> t + Len(new), ok |-> TRUE,
      ids |-> TLCEval([s \in DOMAIN X.rep |-> id(X.rep[s])])]

Submit(S, req) ==
  LET X == Evaluate(S.D, Meta(S.D), S.hw, req) IN
  IF X.rej # {} THEN [S EXCEPT !.ok = FALSE, !.why = X.rej] ELSE TLCEval([why |-> {}] @@ Apply(S, X))

(* The attributes of the types of the assertions are declared first. *)
RECURSIVE Declare(_, _, _, _)
Declare(T0, types, n, S) ==
  IF n > Len(types) \/ ~S.ok THEN S
  ELSE IF ~Recordable(T0, types[n]) THEN [S EXCEPT !.ok = FALSE, !.why = {"bad type"}]
  ELSE Declare(T0, types, n + 1, Submit(S, SchemaRequest(T0, types[n])))

WriteAll(T0, S, e, heap) ==
  LET S1 == Declare(T0, e.types, 1, S) IN
  IF ~S1.ok THEN S1
  ELSE IF ~GraphOk(T0, heap, e.as, e.rs) THEN [S1 EXCEPT !.ok = FALSE, !.why = {"bad graph"}]
  ELSE Submit(S1, GraphRequest(T0, heap, e.as, e.rs))

Props(e) ==
  {"C28"} \cup (IF Len(e.as) > 0 THEN {"C22", "C23", "C24", "C26", "C27"} ELSE {}) \cup (IF Len(e.rs) > 0 THEN {"C25"} ELSE {})

(* The entities of the assertions, as far as there is anything to them. *)
PairsOf(T0, e, heap, S) ==
  {<<LET r == NodeRef(T0, heap, e.as[j][2]) IN IF r[1] = "id" THEN r[2] ELSE S.ids[r[2]], e.ids[j]>> :
     j \in {j \in DOMAIN e.as :
              LET r == NodeRef(T0, heap, e.as[j][2]) IN r[1] = "id" \/ r[2] \in DOMAIN S.ids}}

WriteConforms(e, hh, ii, S, T0, heap, K, pairs) ==
  LET P == Props(e) IN
  /\ PrintT("@@P " \o ToString(<<hh, ii, e.ok, S.why, Len(e.as), Len(e.rs), Len(heap)>>))
  /\ IF e.panic # "" THEN Fail(FALSE, hh, ii, "public write panics", P \cup {"C29", "C20"}, e.panic)
     ELSE
     /\ Fail("kept" \in DOMAIN e => e.kept, hh, ii, "the request is changed", {"C30"}, <<heap, e.as, e.rs>>)
     /\ Fail("past" \in DOMAIN e => e.past, hh, ii, "an earlier response is changed", {"C30"}, 0)
     /\ Fail(~e.snil, hh, ii, "no snapshot in public response", P \cup {"C29"}, e.err)
     /\ IF e.ok THEN
          /\ Fail(S.ok, hh, ii, "public write accepted", P \cup {"C05", "C29", "C26"}, <<S.why, heap, e.as, e.rs>>)
          /\ S.ok => /\ Fail(Len(e.ids) = Len(e.as), hh, ii, "public ids", P, <<e.as, e.ids>>)
                     /\ Len(e.ids) = Len(e.as) =>
                          Fail(Consistent(K, pairs), hh, ii, "public ids", P \cup {"C06"}, <<e.as, e.ids, pairs, K>>)
        ELSE Fail(~S.ok, hh, ii, "public write rejected", P, <<e.err, heap, e.as, e.rs>>)

----------------------------------------------------------------------------
(* What is found. Ids not yet known are learned where they must be those   *)
(* of certain entities.                                                    *)

Blind(Ty0) ==
  [t \in DOMAIN Ty0 |-> [Ty0[t] EXCEPT !.f = [j \in DOMAIN @ |-> IF @[j].k = "id" THEN [@[j] EXCEPT !.k = "none"] ELSE @[j]]]]

NewPairs(T0, heap, done, K) ==
  {p \in UNION {{<<ob[3], heap[ob[1]][3][j][2][2]>> :
                   j \in {j \in DOMAIN T0[ob[2]].f : T0[ob[2]].f[j].k = "id" /\ heap[ob[1]][3][j][1] = "v"}} : ob \in done} :
     p[2] >= FirstUserID /\ p[2] \notin DOMAIN K /\ p[1] >= FirstUserID}

(* [K, fail, open, size] *)
Found(e, S, T0, K0) ==
  LET sh == Shelf(S)
      val(x, ident) == ValuesIn(sh, x, ident)
      is(x) == Known(sh, x)
      root == ToSpec(K0, e.e)
      one == HeapSpec(K0, e.heap)
      blind == Shown(Blind(T0), one, val, is, {<<e.root, e.t, root, TRUE>>}, {})
      pairs == TLCEval(NewPairs(T0, e.heap, blind.done, K0))
      \* Maps keyed by ids that are not known yet are not judged.
      dark == \E n \in DOMAIN one : one[n][1] = "m" /\ \E j \in DOMAIN one[n][3] : one[n][3][j][1][1] = "id" /\ one[n][3][j][1][2] > Huge
      fits == Consistent(K0, pairs)
      K1 == IF fits THEN Learn(K0, pairs) ELSE K0
      R == Shown(T0, HeapSpec(K1, e.heap), val, is, {<<e.root, e.t, root, TRUE>>}, {})
      none(f) == [K |-> K0, fail |-> f, open |-> FALSE, detail |-> <<root>>]
  IN IF ~Recordable(T0, e.t) \/ root > Huge THEN [none("") EXCEPT !.open = TRUE]
     ELSE IF ~is(root) THEN none(IF e.found THEN "found what is not there" ELSE "")
     ELSE IF ~Plain(T0, val, is, e.t, root) THEN [none("") EXCEPT !.open = TRUE]
     ELSE IF ~e.found THEN none("not found")
     ELSE IF blind.wrong # {} THEN
       IF dark THEN [none("") EXCEPT !.open = TRUE]
       ELSE [none("found") EXCEPT !.detail = <<root, blind.wrong, {one[ob[1]] : ob \in blind.wrong}, {d \in S : \E ob \in blind.wrong : E(d) = ob[3]}>>]
     ELSE IF ~fits THEN [none("ids found") EXCEPT !.detail = <<root, pairs>>]
     ELSE IF dark THEN [none("") EXCEPT !.open = TRUE, !.K = K1]
     ELSE IF R.wrong # {} THEN [none("found") EXCEPT !.detail = <<root, R.wrong, {e.heap[ob[1]] : ob \in R.wrong}, {d \in S : \E ob \in R.wrong : E(d) = ob[3]}>>]
     ELSE [K |-> K1, fail |-> IF PointersAgree(R.done) THEN "" ELSE "shape", open |-> FALSE, detail |-> <<root, Cardinality(R.done)>>]

FindConforms(e, hh, ii, F, late) ==
  LET P == {"C28", "C22", "C23", "C24", "C25", "C27"} \cup (IF late THEN {"C02"} ELSE {})
           \cup (IF e.re THEN {"C30"} ELSE {})
           \cup (IF "conc" \in DOMAIN e THEN {"C19", "C20"} ELSE {}) IN
  IF e.panic # "" THEN Fail(FALSE, hh, ii, "public find panics", P \cup {"C29", "C20"}, <<e.t, e.e, e.panic>>)
  ELSE /\ Fail(F.fail = "", hh, ii, "public " \o F.fail, P, <<e.t, e.e, F.detail>>)
       /\ PrintT("@@G " \o ToString(<<hh, ii, e.t, e.found, F.open, Len(e.heap), late>>))

----------------------------------------------------------------------------

Init ==
  /\ h \in DOMAIN Histories
  /\ i = 1
  /\ D = SysDatums
  /\ hw = FirstUserID - 1
  /\ known = [r \in {} |-> 0]
  /\ snaps = << >>
  /\ lost = FALSE
  /\ fork = [marks |-> << >>, times |-> << >>]
  /\ marked = << >>

New ==
  /\ i = 1
  /\ Fail(Ev(h, 1).panic = "", h, i, "new database panics", {"C28", "C29"}, Ev(h, 1).panic)
  /\ UNCHANGED <<D, hw, known, snaps, lost>>

(* Everything of a step is computed as one expression: TLC evaluates the   *)
(* definitions of actions anew for every use.                              *)
WriteResult(e, hh, ii, T0, D0, hw0, K) ==
  LET heap == HeapSpec(K, e.heap)
      S == TLCEval(WriteAll(T0, [D |-> D0, hw |-> hw0, ok |-> TRUE, why |-> {}, ids |-> EmptyRep], e, heap))
      good == S.ok /\ e.ok /\ e.panic = "" /\ Len(e.ids) = Len(e.as)
      pairs == IF good THEN TLCEval(PairsOf(T0, e, heap, S)) ELSE {}
      fits == good /\ Consistent(K, pairs)
  IN IF Strange(heap) THEN [D |-> D0, hw |-> hw0, known |-> K, lost |-> PrintT("@@L " \o ToString(<<hh, ii>>))]
     ELSE IF WriteConforms(e, hh, ii, S, T0, heap, K, pairs)
     THEN [D |-> S.D, hw |-> S.hw, known |-> IF fits THEN Learn(K, pairs) ELSE K,
           lost |-> ~(IF e.ok THEN fits ELSE ~S.ok /\ e.panic = "")]
     ELSE [D |-> S.D, hw |-> S.hw, known |-> K, lost |-> TRUE]

Write ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "pw" /\ ~lost
  /\ \E R \in {TLCEval(WriteResult(e, h, i, Ty(h), D, hw, known))} :
       D' = R.D /\ hw' = R.hw /\ known' = R.known /\ lost' = R.lost
  /\ UNCHANGED snaps

FindResult(e, hh, ii, S, T0, D0, K) ==
  LET F == TLCEval(Found(e, S, T0, K)) IN IF FindConforms(e, hh, ii, F, S # D0) THEN F.K ELSE K

Find ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "find" /\ ~lost
  /\ \E K \in {TLCEval(FindResult(e, h, i, snaps[e.s], Ty(h), D, known))} : known' = K
  /\ UNCHANGED <<D, hw, snaps, lost>>

Keep ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "snap" /\ ~lost
  /\ snaps' = (e.s :> D) @@ snaps
  /\ UNCHANGED <<D, hw, known, lost>>

Drop ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "drop" /\ ~lost
  /\ snaps' = TLCEval([k \in DOMAIN snaps \ {e.s} |-> snaps[k]])
  /\ UNCHANGED <<D, hw, known, lost>>

(* Several processes have been at work.  Their accepted writes left marks, *)
(* new entities whose ids tell the order of the writes (see Lin); these    *)
(* writes follow one by one as if they had been alone, each with the       *)
(* snapshot of its response; reads and rejected writes come after the last *)
(* write that they saw.                                                    *)
Fork ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "pfork"
  /\ fork' = [marks |-> e.marks, times |-> e.times]
  /\ Fail(\A n \in 1..(Len(e.times) - 1) : \A m \in (n + 1)..Len(e.times) : ~(e.times[m][2] < e.times[n][1]),
          h, i, "order of public writes against time", {"C19", "C08"}, e.times)
  /\ UNCHANGED <<D, hw, known, snaps, lost>>

Position ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "pmark"
  /\ IF e.panic # "" THEN Fail(FALSE, h, i, "concurrent operation panics", {"C19", "C20", "C28"}, e.panic)
     ELSE /\ Fail(~e.snil, h, i, "no snapshot", {"C28", "C19"}, 0)
          /\ Fail(Set(e.marks) = {fork.marks[n] : n \in 1..e.at}, h, i, "a snapshot of no prefix of the public writes", {"C19", "C28"}, <<e.at, e.marks, fork.marks>>)
          /\ Fail(\A n \in 1..e.at : fork.times[n][1] < e.ret, h, i, "a public write is seen before it began", {"C19"}, <<e.at, e.ret>>)
          /\ Fail(\A n \in (e.at + 1)..Len(fork.times) : ~(fork.times[n][2] < e.call), h, i, "a finished public write is not seen", {"C19", "C28"}, <<e.at, e.call>>)
  /\ UNCHANGED <<D, hw, known, snaps, lost, fork>>

Hang ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "hang"
  /\ Fail(FALSE, h, i, "deadlock", {"C20", "C19"}, e.what)
  /\ UNCHANGED <<D, hw, known, snaps, lost, fork>>

(* A state is marked, and the database is made anew until it looks as it   *)
(* did then.                                                               *)
Mark ==
  /\ i > 1 /\ Ev(h, i).k = "mark" /\ ~lost
  /\ marked' = <<D, hw, known>>
  /\ UNCHANGED <<D, hw, known, snaps, lost>>

Back ==
  /\ i > 1 /\ Ev(h, i).k = "back" /\ ~lost
  /\ D' = marked[1] /\ hw' = marked[2] /\ known' = marked[3]
  /\ UNCHANGED <<marked, snaps, lost>>

Skip == i > 1 /\ lost /\ Ev(h, i).k \in {"pw", "find", "snap", "drop", "mark", "back"} /\ UNCHANGED <<D, hw, known, snaps, lost>>

(* When all is done, nothing is still going on, and no iteration waits to  *)
(* be resumed.                                                             *)
Rest ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "rest"
  /\ Fail(e.left = 0, h, i, "something goes on", {"C32"}, e.left)
  /\ UNCHANGED <<D, hw, known, snaps, lost>>

Next ==
  /\ i <= Len(Histories[h].events)
  /\ \/ (New \/ Write \/ Find \/ Keep \/ Drop \/ Rest \/ Skip) /\ UNCHANGED <<fork, marked>>
     \/ (Mark \/ Back) /\ UNCHANGED fork
     \/ (Fork \/ Position \/ Hang) /\ UNCHANGED marked
  /\ i' = i + 1
  /\ h' = h

Spec == Init /\ [][Next]_vars
=============================================================================
