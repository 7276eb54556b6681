--------------------------------- MODULE SMC ---------------------------------
(***************************************************************************)
(* Explores a small world of structs (SThemes) exhaustively, to a depth,   *)
(* as MC does those of datums.  Besides the invariants, it checks the      *)
(* specification of structs against itself: what is recorded is what is    *)
(* then found, and recording what was found changes nothing.               *)
(***************************************************************************)
EXTENDS SThemes, Json, IOUtils, TLC

W == TLCEval(World(IOEnv.THEME))
Depth == atoi(IOEnv.DEPTH)

ASSUME JsonSerialize(IOEnv.OUT, W)

VARIABLES D, hw, bind, path

vars == <<D, hw, bind, path>>

----------------------------------------------------------------------------

Scalar(b, v) == IF v[1] = "name" THEN <<"id", b[v[2]]>> ELSE v
Part(b, x) == IF x[1] = "v" THEN <<"v", Scalar(b, x[2])>> ELSE x
Named(b, heap) ==
  [n \in DOMAIN heap |->
     <<heap[n][1], heap[n][2],
       [m \in DOMAIN heap[n][3] |-> IF heap[n][1] = "m" THEN <<Scalar(b, heap[n][3][m][1]), heap[n][3][m][2]>> ELSE Part(b, heap[n][3][m])]>>]

(* The next state by a request, with ids allocated one after the other. *)
Done(D0, hw0, req) ==
  LET M == Meta(D0)
      R == Evaluate(D0, M, hw0, req)
      new == SetToSeq({R.rep[s] : s \in {s \in DOMAIN R.rep : R.rep[s][1] = "temp"}})
      t == hw0 + 1
      id(x) == CASE x[1] = "e" -> x[2] [] x[1] = "txn" -> t [] OTHER -> t + (CHOOSE n \in DOMAIN new : new[n] = x)
  IN IF R.rej # {} \/ R.may THEN [ok |-> FALSE, D |-> D0, hw |-> hw0, ids |-> [s \in {} |-> 0], fresh |-> FALSE]
     ELSE [ok |-> TRUE, D |-> TLCEval(Effect(D0, M, Concrete(R.claims, id), R.gone, t)), hw |-> t + Len(new),
           ids |-> TLCEval([s \in DOMAIN R.rep |-> id(R.rep[s])]), fresh |-> \A s \in DOMAIN R.rep : R.rep[s] = <<"temp", s>>]

After(D0, hw0, b, r) ==
  LET heap == TLCEval(Named(b, r.heap)) IN
  IF GraphOk(W.types, heap, r.as, r.rs) THEN Done(D0, hw0, GraphRequest(W.types, heap, r.as, r.rs))
  ELSE [ok |-> FALSE, D |-> D0, hw |-> hw0, ids |-> [s \in {} |-> 0], fresh |-> FALSE]

IdOf(heap, ids, n) == LET r == NodeRef(W.types, heap, n) IN IF r[1] = "id" THEN r[2] ELSE ids[r[2]]

RECURSIVE Prepared(_, _, _)
Prepared(D0, hw0, n) ==
  IF n > Len(W.order) THEN [D |-> D0, hw |-> hw0]
  ELSE LET A2 == TLCEval(Done(D0, hw0, SchemaRequest(W.types, W.order[n]))) IN
       IF Assert(A2.ok, <<"schema", n>>) THEN Prepared(A2.D, A2.hw, n + 1) ELSE [D |-> {}, hw |-> 0]

RECURSIVE Ready(_, _, _, _)
Ready(D0, hw0, b, n) ==
  IF n > Len(W.setup) THEN [D |-> D0, hw |-> hw0, bind |-> b]
  ELSE LET r == W.setup[n]
           A2 == TLCEval(After(D0, hw0, b, r))
           b2 == [s \in {r.names[m] : m \in DOMAIN r.names} |->
                    IdOf(Named(b, r.heap), A2.ids, r.as[CHOOSE m \in DOMAIN r.names : r.names[m] = s][2])]
       IN IF Assert(A2.ok, <<"setup", n>>) THEN Ready(A2.D, A2.hw, b2 @@ b, n + 1) ELSE [D |-> {}, hw |-> 0, bind |-> b]

Init ==
  \E B \in {TLCEval(Prepared(SysDatums, FirstUserID - 1, 1))} :
  \E R \in {TLCEval(Ready(B.D, B.hw, [s \in {} |-> 0], 1))} :
    D = R.D /\ hw = R.hw /\ bind = R.bind /\ path = << >>

----------------------------------------------------------------------------
(* What is recorded of nothing that was there before is found as it was.   *)

(* The heap as it is to be found: with ids, and no difference between what *)
(* is empty and what is not there.                                         *)
AsFound(heap, ids, nodes, is(_)) ==
  [n \in DOMAIN heap |->
     IF n \notin nodes THEN heap[n]
     ELSE LET fs == FieldsAt(W.types, heap, n) IN
          <<"s", heap[n][2], [j \in DOMAIN fs |->
             LET x == heap[n][3][j] IN
             CASE fs[j].k = "id" -> <<"v", <<"id", IF is(ids[NodeName(n)]) THEN ids[NodeName(n)] ELSE 0>>>>
               [] fs[j].k \in Collections -> IF Elements(heap, x) = << >> THEN <<"nil", 0>> ELSE x
               [] OTHER -> x]>>]

RoundTrips(heap, as, R) ==
  LET T0 == W.types
      nodes == NodesFrom(T0, heap, Roots(as))
      sh == Shelf(R.D)
      val(x, ident) == ValuesIn(sh, x, ident)
      is(x) == Known(sh, x)
      found == TLCEval(AsFound(heap, R.ids, nodes, is))
      \* By-id maps are keyed by ids that were there before, so their entries are not new.
      new == R.fresh /\ \A n \in nodes : IdAt(T0, heap, n) = 0 /\ NodeName(n) \in DOMAIN R.ids
  IN new =>
     /\ Assert(RecordedExactly(T0, heap, nodes, R.ids, val), "not recorded exactly")
     /\ \A p \in DOMAIN as :
          LET root == as[p][2]
              t == heap[root][2]
              e == R.ids[NodeName(root)]
          IN is(e) =>
             /\ Assert(Plain(T0, val, is, t, e), <<"not plain", found>>)
             /\ Assert(Shown(T0, found, val, is, {<<root, t, e, TRUE>>}, {}).wrong = {}, <<"not found as recorded", found>>)
     /\ \* What was found is there already, but for the scalars of slices, each of which is a new entity.
        (\A n \in nodes : is(R.ids[NodeName(n)]) /\ IdAt(T0, found, n) # 0) /\ (\A n \in nodes : \A j \in DOMAIN FieldsAt(T0, heap, n) : FieldsAt(T0, heap, n)[j].k = "slist" => found[n][3][j][1] = "nil") =>
          LET again == TLCEval(Done(R.D, R.hw, GraphRequest(T0, found, as, << >>))) IN
          Assert(again.ok /\ {d \in again.D : E(d) <= R.hw} = R.D, <<"not the same again", found>>)

(* Nothing is left of what retracted entities were. *)
Gone(heap, rs, D0, R) ==
  LET M == Meta(D0) IN
  \A p \in DOMAIN rs :
    LET id == IdAt(W.types, heap, rs[p][2]) IN
    id # 0 => Assert(\A d \in R.D : E(d) # id \/ d \notin D0, <<"not gone", id>>)

Next ==
  /\ Len(path) < Depth
  /\ \E n \in DOMAIN W.requests :
     LET r == W.requests[n] IN
     \E R \in {TLCEval(After(D, hw, bind, r))} :
       /\ R.ok
       /\ RoundTrips(Named(bind, r.heap), r.as, R)
       /\ Gone(Named(bind, r.heap), r.rs, D, R)
       /\ Assert(AttributesKept(Meta(D), Meta(R.D)), "an attribute changes")
       /\ D' = R.D /\ hw' = R.hw
       /\ bind' = bind
       /\ path' = Append(path, n)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------

Entities == {E(d) : d \in D} \cup {bind[s] : s \in DOMAIN bind} \cup {V(d)[2] : d \in {d \in D : V(d)[1] = "id"}}
View ==
  LET es == {e \in Entities : e >= FirstUserID}
      rank == TLCEval([e \in es |-> Cardinality({x \in es : x < e})])
      of(e) == IF e >= FirstUserID THEN <<"r", rank[e]>> ELSE <<"s", e>>
  IN <<{<<of(E(d)), of(A(d)), IF V(d)[1] = "id" THEN of(V(d)[2]) ELSE V(d)>> : d \in {d \in D : E(d) >= FirstUserID}},
       [s \in DOMAIN bind |-> of(bind[s])]>>

Invariant ==
  LET M == Meta(D) IN
  /\ OneDatumPerEAV(D) /\ WellTyped(D, M) /\ CardinalityHolds(D, M) /\ UniqueHolds(D, M)
  /\ AttributesComplete(D, M) /\ SystemIntact(D)
  /\ PrintT("@@S " \o ToString(path))
=============================================================================
