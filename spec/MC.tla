---------------------------------- MODULE MC ----------------------------------
(***************************************************************************)
(* Explores a small world (Themes) exhaustively: every request of its      *)
(* universe in every state, to a depth.  The invariants are those of       *)
(* Destructive.  The states are printed with the requests that lead there, *)
(* for the harness to try every request of the universe in the code, in    *)
(* these states, for Trace to judge.                                       *)
(***************************************************************************)
EXTENDS Themes, Json, IOUtils, TLC

W == TLCEval(World(IOEnv.THEME))
Depth == atoi(IOEnv.DEPTH)

ASSUME JsonSerialize(IOEnv.OUT, W)

VARIABLES D, hw, bind, path

vars == <<D, hw, bind, path>>

----------------------------------------------------------------------------
(* Names. *)

RECURSIVE Bound(_, _)
Bound(b, r) ==
  CASE r[1] = "name" -> IF r[2] \in DOMAIN b THEN <<"id", b[r[2]]>> ELSE <<"unbound", 0>>
    [] r[1] = "lookup" -> <<"lookup", Bound(b, r[2]), r[3]>>
    [] OTHER -> r

Claims(b, cs) == [n \in DOMAIN cs |-> <<Bound(b, cs[n][1]), Bound(b, cs[n][2]), Bound(b, cs[n][3]), cs[n][4]>>]
Named(b, req) ==
  [claims |-> Claims(b, req.claims), rets |-> [n \in DOMAIN req.rets |-> [m \in DOMAIN req.rets[n] |-> Bound(b, req.rets[n][m])]]]

(* Whether all names of the request mean something. *)
Meant(req) ==
  /\ \A n \in DOMAIN req.claims : \A m \in 1..3 : req.claims[n][m][1] # "unbound"
  /\ \A n \in DOMAIN req.rets : \A m \in DOMAIN req.rets[n] : req.rets[n][m][1] # "unbound"

----------------------------------------------------------------------------
(* The next state, with ids allocated one after the other. *)

After(D0, hw0, b, req0) ==
  LET req == Named(b, req0)
      M == Meta(D0)
      R == Evaluate(D0, M, hw0, req)
      new == SetToSeq({R.rep[s] : s \in {s \in DOMAIN R.rep : R.rep[s][1] = "temp"}})
      t == hw0 + 1
      id(x) == CASE x[1] = "e" -> x[2] [] x[1] = "txn" -> t [] OTHER -> t + (CHOOSE n \in DOMAIN new : new[n] = x)
  IN IF ~Meant(req) \/ R.rej # {} \/ R.may THEN [ok |-> FALSE, D |-> D0, hw |-> hw0, bind |-> b]
     ELSE [ok |-> TRUE, D |-> TLCEval(Effect(D0, M, Concrete(R.claims, id), R.gone, t)), hw |-> t + Len(new),
           bind |-> TLCEval([s \in DOMAIN R.rep |-> id(R.rep[s])] @@ b)]

RECURSIVE Ready(_, _, _, _)
Ready(D0, hw0, b, n) ==
  IF n > Len(W.setup) THEN [D |-> D0, hw |-> hw0, bind |-> b]
  ELSE LET A2 == TLCEval(After(D0, hw0, b, W.setup[n])) IN
       IF Assert(A2.ok, <<"setup", n>>) THEN Ready(A2.D, A2.hw, A2.bind, n + 1) ELSE [D |-> {}, hw |-> 0, bind |-> b]

Init ==
  \E R \in {TLCEval(Ready(SysDatums, FirstUserID - 1, [s \in {} |-> 0], 1))} :
    D = R.D /\ hw = R.hw /\ bind = R.bind /\ path = << >>

Next ==
  /\ Len(path) < Depth
  /\ \E n \in DOMAIN W.requests :
     \E R \in {TLCEval(After(D, hw, bind, W.requests[n]))} :
       /\ R.ok
       /\ Assert(AttributesKept(Meta(D), Meta(R.D)), "an attribute changes")
       /\ D' = R.D /\ hw' = R.hw /\ bind' = R.bind
       /\ path' = Append(path, n)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* States that differ in the numbers of their entities only are the same,  *)
(* but for what the transactions were.                                     *)

Entities == {E(d) : d \in D} \cup {bind[s] : s \in DOMAIN bind} \cup {V(d)[2] : d \in {d \in D : V(d)[1] = "id"}}
View ==
  LET es == {e \in Entities : e >= FirstUserID}
      rank == TLCEval([e \in es |-> Cardinality({x \in es : x < e})])
      of(e) == IF e >= FirstUserID THEN <<"r", rank[e]>> ELSE <<"s", e>>
  IN <<{<<of(E(d)), of(A(d)), IF V(d)[1] = "id" THEN of(V(d)[2]) ELSE V(d)>> : d \in {d \in D : E(d) >= FirstUserID}},
       [s \in DOMAIN bind |-> of(bind[s])]>>

Invariant ==
  LET M == Meta(D) IN
  /\ OneDatumPerEAV(D) /\ WellTyped(D, M) /\ CardinalityHolds(D, M) /\ UniqueHolds(D, M)
  /\ AttributesComplete(D, M) /\ SystemIntact(D)
  /\ PrintT("@@S " \o ToString(path))
=============================================================================
