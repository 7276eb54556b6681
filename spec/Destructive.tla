----------------------------- MODULE Destructive -----------------------------
(***************************************************************************)
(* The database.                                                           *)
(*                                                                         *)
(* The state is a set D of datums <<e, a, v, t>> together with hw, the     *)
(* greatest id issued to or acknowledged by any caller.  There are no      *)
(* caches in this specification: what is an attribute, what type it has,   *)
(* what an ident resolves to are all functions of D.                       *)
(*                                                                         *)
(* References, as they occur in requests and queries:                      *)
(*   <<"id", n>>  <<"ident", s>>  <<"lookup", aref, rawvalue>>             *)
(*   <<"temp", s>>  <<"txn", 0>>  <<"nil", 0>>  <<"bad", s>>               *)
(* A claim is <<eref, aref, v, retract>>, v a raw value or a reference;    *)
(* a retraction is a sequence of references (its constraints); a request   *)
(* is a record [claims |-> Seq(claim), rets |-> Seq(retraction)].          *)
(*                                                                         *)
(* Within a request, the entities are denoted by terms: <<"e", n>> for an  *)
(* entity of the state before the write, <<"txn", 0>> for the transaction, *)
(* <<"temp", s>> for the new entity of which s is the chosen temp id.      *)
(***************************************************************************)
EXTENDS Sys, FiniteSets, TLC

E(d) == d[1]
A(d) == d[2]
V(d) == d[3]
T(d) == d[4]
EAV(d) == <<d[1], d[2], d[3]>>

Nil == <<"nil", 0>>

Least(S) == CHOOSE x \in S : \A y \in S : x <= y

----------------------------------------------------------------------------
(* What the datums say about attributes and idents. *)

Attributes(D) == {E(d) : d \in {d \in D : A(d) = AttrType}}
ValuesOf(D, e, a) == {V(d) : d \in {d \in D : E(d) = e /\ A(d) = a}}
OneOf(S) == IF S = {} THEN Nil ELSE CHOOSE x \in S : TRUE

(* The metadata of every attribute, computed once per state. *)
Meta(D) ==
  LET defs == {d \in D : A(d) \in {AttrType, AttrUnique, AttrCardinality, DbIdent}}
  IN TLCEval([a \in Attributes(D) |->
     [type |-> OneOf(ValuesOf(defs, a, AttrType))[2],
      unique |-> OneOf(ValuesOf(defs, a, AttrUnique)),
      card |-> OneOf(ValuesOf(defs, a, AttrCardinality)),
      ident |-> OneOf(ValuesOf(defs, a, DbIdent))]])

IsUnique(M, a) == a \in DOMAIN M /\ M[a].unique # Nil
IsIdentity(M, a) == a \in DOMAIN M /\ M[a].unique = Ref(UniqueIdentity)
IsMany(M, a) == a \in DOMAIN M /\ M[a].card = Ref(CardinalityMany)
Typed(M, a, v) == a \in DOMAIN M /\ v[1] \in Types /\ TagOf(M[a].type) = v[1]

Idents(D) == {<<V(d)[2], E(d)>> : d \in {d \in D : A(d) = DbIdent}}
AttrIdents(D) ==
  LET as == TLCEval(Attributes(D)) IN {<<E(d), V(d)[2]>> : d \in {d \in D : A(d) = DbIdent /\ E(d) \in as}}
IdentTable(D) ==
  LET I == Idents(D) IN TLCEval([s \in {p[1] : p \in I} |-> (CHOOSE p \in I : p[1] = s)[2]])
IdentId(D, s) == LET S == {p \in Idents(D) : p[1] = s} IN IF S = {} THEN 0 ELSE (CHOOSE p \in S : TRUE)[2]

Holders(D, a, v) == {E(d) : d \in {d \in D : A(d) = a /\ V(d) = v}}

----------------------------------------------------------------------------
(* References.  0 when the reference does not resolve. *)

RECURSIVE ResolveIn(_, _, _, _)
ResolveIn(D, M, N, r) ==
  CASE r[1] = "id" -> r[2]
    [] r[1] = "ident" -> IF r[2] \in DOMAIN N THEN N[r[2]] ELSE 0
    [] r[1] = "lookup" ->
         LET a == ResolveIn(D, M, N, r[2]) v == Canon(r[3])
         IN IF IsUnique(M, a) /\ Typed(M, a, v)
            THEN LET H == Holders(D, a, v) IN IF H = {} THEN 0 ELSE CHOOSE e \in H : TRUE
            ELSE 0
    [] OTHER -> 0

Resolve(D, M, r) == ResolveIn(D, M, IdentTable(D), r)

----------------------------------------------------------------------------
(* Queries.  The fields of a query claim are references or raw values, Nil *)
(* for any.                                                                *)

QE(D, M, c) == IF c[1] = Nil THEN 0 ELSE LET e == Resolve(D, M, c[1]) IN IF e = 0 THEN -1 ELSE e
QA(D, M, c) == IF c[2] = Nil THEN 0 ELSE LET a == Resolve(D, M, c[2]) IN IF a = 0 THEN -1 ELSE a
QV(D, M, c) ==
  LET v == c[3] IN
  CASE v = Nil -> Nil
    [] v[1] \in {"ident", "lookup"} -> LET n == Resolve(D, M, v) IN IF n = 0 THEN <<"none", 0>> ELSE Ref(n)
    [] v[1] \in Types -> Canon(v)
    [] OTHER -> <<"none", 0>>

Matching(D, M, c) ==
  LET e == QE(D, M, c) a == QA(D, M, c) v == QV(D, M, c)
  IN {d \in D : (e = 0 \/ E(d) = e) /\ (a = 0 \/ A(d) = a) /\ (v = Nil \/ V(d) = v)}

Precedes(d1, d2) ==
  \/ E(d1) < E(d2)
  \/ E(d1) = E(d2) /\ A(d1) < A(d2)
  \/ E(d1) = E(d2) /\ A(d1) = A(d2) /\ Rank(V(d1)) < Rank(V(d2))

Ordered(seq) == \A i \in 1..(Len(seq) - 1) : Precedes(seq[i], seq[i + 1])
Once(seq) == Cardinality({EAV(seq[i]) : i \in DOMAIN seq}) = Len(seq)

----------------------------------------------------------------------------
(* Requests: resolving the claims in the state before the write.           *)

ETerm(D, M, N, hw, r) ==
  CASE r[1] = "temp" -> r
    [] r[1] = "txn" -> r
    [] r[1] = "id" -> IF r[2] >= 1 /\ r[2] <= hw THEN <<"e", r[2]>> ELSE Nil
    [] OTHER -> LET n == ResolveIn(D, M, N, r) IN IF n = 0 THEN Nil ELSE <<"e", n>>

AId(D, M, N, hw, r) ==
  CASE r[1] = "id" -> IF r[2] >= 1 /\ r[2] <= hw THEN r[2] ELSE 0
    [] OTHER -> ResolveIn(D, M, N, r)

VTerm(D, M, N, v) ==
  CASE v[1] = "temp" -> v
    [] v[1] \in {"ident", "lookup"} -> LET n == ResolveIn(D, M, N, v) IN IF n = 0 THEN Nil ELSE Ref(n)
    [] v[1] \in Types -> Canon(v)
    [] OTHER -> Nil

(* The type a value term has: the entities of a request are references. *)
VTag(v) == IF v[1] \in {"temp", "txn"} THEN "id" ELSE v[1]

Resolved(D, M, hw, claims) ==
  LET N == IdentTable(D) IN
  TLCEval([i \in DOMAIN claims |->
     [e |-> ETerm(D, M, N, hw, claims[i][1]), a |-> AId(D, M, N, hw, claims[i][2]),
      v |-> VTerm(D, M, N, claims[i][3]), r |-> claims[i][4]]])

TempsOf(claims) ==
  UNION {{x[2] : x \in {y \in {claims[i][1], claims[i][3]} : y[1] = "temp"}} : i \in DOMAIN claims}

----------------------------------------------------------------------------
(* Temp ids: the least identification of the temp ids with each other and  *)
(* with the entities named or found that the identity claims force.        *)

TermOf(rep, x) == IF x[1] = "temp" THEN rep[x[2]] ELSE x
ValOf(rep, v) ==
  IF v[1] = "temp" THEN LET x == rep[v[2]] IN IF x[1] = "e" THEN Ref(x[2]) ELSE x ELSE v

(* The pairs of different terms that some identity claims equate. *)
Forced(D, M, R, rep) ==
  LET I == {i \in DOMAIN R : ~R[i].r /\ IsIdentity(M, R[i].a)}
      U == {d \in D : IsUnique(M, A(d))}
      et == TLCEval([i \in I |-> TermOf(rep, R[i].e)])
      vt == TLCEval([i \in I |-> ValOf(rep, R[i].v)])
      held == {<<R[i].a, vt[i], et[i]>> : i \in I}
      several == Cardinality({<<x[1], x[2]>> : x \in held}) < Cardinality(held)
  IN UNION {{<<et[i], <<"e", h>>>> : h \in {h \in Holders(U, R[i].a, vt[i]) : <<"e", h>> # et[i]}} : i \in I}
     \cup (IF several
           THEN UNION {{<<x[3], y[3]>> : y \in {y \in held : y[1] = x[1] /\ y[2] = x[2] /\ y[3] # x[3]}} : x \in held}
           ELSE {})

Merge(rep, from, to) == TLCEval([s \in DOMAIN rep |-> IF rep[s] = from THEN to ELSE rep[s]])

RECURSIVE Unify(_, _, _, _)
Unify(D, M, R, rep) ==
  LET F == Forced(D, M, R, rep) IN
  IF F = {} THEN [rep |-> rep, clash |-> FALSE]
  ELSE LET p == CHOOSE p \in F : TRUE IN
       IF p[1][1] = "temp" THEN Unify(D, M, R, Merge(rep, p[1], p[2]))
       ELSE IF p[2][1] = "temp" THEN Unify(D, M, R, Merge(rep, p[2], p[1]))
       ELSE [rep |-> rep, clash |-> TRUE]

----------------------------------------------------------------------------
(* Retractions of entities. *)

RetTargets(D, M, hw, ret) ==
  {IF ret[i][1] = "id" /\ ret[i][2] > hw THEN 0 ELSE Resolve(D, M, ret[i]) : i \in DOMAIN ret}

RetReasons(D, M, hw, rets) ==
  UNION {LET S == RetTargets(D, M, hw, rets[i]) IN
         (IF S = {} THEN {"retract-none"} ELSE {})
         \cup (IF 0 \in S THEN {"retract-unresolved"} ELSE {})
         \cup (IF Cardinality(S) > 1 THEN {"retract-several"} ELSE {})
         \cup (IF \E e \in S : e # 0 /\ e < FirstUserID THEN {"sys"} ELSE {})
         \cup (IF \E e \in S : e >= FirstUserID /\ e \in DOMAIN M THEN {"retract-attr"} ELSE {})
         : i \in DOMAIN rets}

Retracted(D, M, hw, rets) ==
  LET S == UNION {RetTargets(D, M, hw, rets[i]) : i \in DOMAIN rets} IN {d \in D : E(d) \in S}

----------------------------------------------------------------------------
(* Whether a request is to be rejected, and why.                           *)
(*                                                                         *)
(* rej: the reasons for which it must be.  may: aspects in which this      *)
(* specification leaves it to the database (both answers are conforming).  *)

EmptyRep == [s \in {} |-> Nil]

BasicReasons(M, R) ==
  UNION {LET c == R[i] IN
         (IF c.e = Nil THEN {"badE"} ELSE {})
         \cup (IF c.a = 0 THEN {"badA"} ELSE {})
         \cup (IF c.v = Nil THEN {"badV"} ELSE {})
         \cup (IF c.a # 0 /\ c.a \notin DOMAIN M THEN {"notattr"} ELSE {})
         \cup (IF c.a \in DOMAIN M /\ c.v # Nil /\ VTag(c.v) # TagOf(M[c.a].type) THEN {"type"} ELSE {})
         : i \in DOMAIN R}

(* c: the claims with terms substituted. *)
UniqueReasons(D, M, R, C) ==
  LET I == {i \in DOMAIN C : ~C[i].r /\ IsUnique(M, C[i].a)}
      U == {d \in D : IsUnique(M, A(d))} IN
  UNION {LET H == {<<"e", h>> : h \in Holders(U, C[i].a, C[i].v)} IN
         (IF H \ {C[i].e} # {} THEN {"unique"} ELSE {})
         \cup (IF ~IsIdentity(M, C[i].a) /\ R[i].e[1] = "temp" /\ H # {} THEN {"unique"} ELSE {})
         : i \in I}
  (* One value for several entities. *)
  \cup (LET held == {<<C[i].a, C[i].v, C[i].e>> : i \in I}
        IN IF Cardinality({<<x[1], x[2]>> : x \in held}) < Cardinality(held) THEN {"unique"} ELSE {})

(* Several values of one entity for an attribute of cardinality one. *)
CardReasons(M, C) ==
  LET ones == {C[i] : i \in {i \in DOMAIN C : ~C[i].r /\ C[i].a \in DOMAIN M /\ ~IsMany(M, C[i].a)}}
  IN IF Cardinality({<<c.e, c.a>> : c \in ones}) < Cardinality(ones) THEN {"card"} ELSE {}

SysReasons(C) ==
  IF \E i \in DOMAIN C : C[i].e[1] = "e" /\ C[i].e[2] < FirstUserID THEN {"sys"} ELSE {}

SysIdentReasons(C) ==
  IF \E i \in DOMAIN C : C[i].a = DbIdent /\ ~C[i].r /\ IsSysIdent(C[i].v[2]) THEN {"sysident"} ELSE {}

DefAttrs == {AttrType, AttrUnique, AttrCardinality}
IsAttrTerm(M, x) == x[1] = "e" /\ x[2] \in DOMAIN M

(* Claims about attributes that exist. *)
AttrReasons(M, C) ==
  UNION {LET c == C[i] IN
         IF ~IsAttrTerm(M, c.e) THEN {}
         ELSE LET m == M[c.e[2]]
                  cur == CASE c.a = AttrType -> Ref(m.type) [] c.a = AttrUnique -> m.unique
                           [] c.a = AttrCardinality -> m.card [] c.a = DbIdent -> m.ident [] OTHER -> Nil
              IN IF c.a \notin DefAttrs \cup {DbIdent} THEN {}
                 ELSE IF c.r THEN (IF cur = c.v THEN {"attr"} ELSE {})
                 ELSE (IF cur # c.v THEN {"attr"} ELSE {})
         : i \in DOMAIN C}

(* Claims that make entities attributes. *)
Declared(M, C) ==
  {C[i].e : i \in {i \in DOMAIN C : ~C[i].r /\ C[i].a \in DefAttrs /\ ~IsAttrTerm(M, C[i].e)}}

Asserted(C, x, a) == {C[i].v : i \in {i \in DOMAIN C : ~C[i].r /\ C[i].e = x /\ C[i].a = a}}

RECURSIVE IdentsAfter(_, _, _, _)
IdentsAfter(C, x, n, S) ==
  IF n > Len(C) THEN S
  ELSE IdentsAfter(C, x, n + 1,
         IF C[n].e # x \/ C[n].a # DbIdent THEN S
         ELSE IF C[n].r THEN S \ {C[n].v} ELSE {C[n].v})

(* Whether the entity has an ident once the claims are applied in order. *)
IdentsThroughout(D, C, x) ==
  IdentsAfter(C, x, 1, IF x[1] = "e" THEN ValuesOf(D, x[2], DbIdent) ELSE {})

DeclareReasons(D, M, C) ==
  UNION {(IF Asserted(C, x, AttrType) = {} \/ ~(Asserted(C, x, AttrType) \subseteq ValidTypes) THEN {"attr"} ELSE {})
         \cup (IF ~(Asserted(C, x, AttrUnique) \subseteq ValidUniques) THEN {"attr"} ELSE {})
         \cup (IF ~(Asserted(C, x, AttrCardinality) \subseteq ValidCardinalities) THEN {"attr"} ELSE {})
         \cup (IF IdentsThroughout(D, C, x) = {} THEN {"attr"} ELSE {})
         : x \in Declared(M, C)}

(* What is left open: retracting what is not there from attributes or from *)
(* the reserved idents, and declaring an attribute by the ident its entity *)
(* already had.                                                            *)
Open(D, M, C) ==
  \/ \E i \in DOMAIN C : C[i].r /\ C[i].a \in DefAttrs
  \/ \E i \in DOMAIN C : C[i].r /\ C[i].a = DbIdent /\ (IsAttrTerm(M, C[i].e) \/ IsSysIdent(C[i].v[2]))
  \/ \E x \in Declared(M, C) : Asserted(C, x, DbIdent) = {}

Substituted(R, rep) ==
  TLCEval([i \in DOMAIN R |-> [e |-> TermOf(rep, R[i].e), a |-> R[i].a, v |-> ValOf(rep, R[i].v), r |-> R[i].r]])

Evaluate(D, M, hw, req) ==
  LET R == Resolved(D, M, hw, req.claims)
      basic == BasicReasons(M, R) \cup RetReasons(D, M, hw, req.rets)
      temps == TempsOf(req.claims)
      rep0 == [s \in temps |-> <<"temp", s>>]
  IN IF basic # {}
     THEN [rej |-> basic, may |-> FALSE, rep |-> EmptyRep, claims |-> << >>, gone |-> {}]
     ELSE LET U == Unify(D, M, R, rep0)
              C == Substituted(R, U.rep)
              gone == Retracted(D, M, hw, req.rets)
          IN IF U.clash
             THEN [rej |-> {"unique"}, may |-> FALSE, rep |-> EmptyRep, claims |-> << >>, gone |-> {}]
             ELSE [rej |-> UniqueReasons(D, M, R, C) \cup CardReasons(M, C) \cup SysReasons(C)
                           \cup SysIdentReasons(C) \cup AttrReasons(M, C) \cup DeclareReasons(D, M, C)
                           \cup (IF \E d \in gone : \E x \in Declared(M, C) : x = <<"e", E(d)>> /\ A(d) = DbIdent
                                                                             /\ V(d) \in IdentsThroughout(D, C, x)
                                 THEN {"attr"} ELSE {}),
                   may |-> Open(D, M, C), rep |-> U.rep, claims |-> C, gone |-> gone]

----------------------------------------------------------------------------
(* The effect of an accepted request.  id gives the entity of each term.   *)

Concrete(C, id(_)) ==
  TLCEval([i \in DOMAIN C |-> [e |-> id(C[i].e), a |-> C[i].a, r |-> C[i].r,
                                v |-> IF C[i].v[1] \in {"temp", "txn"} THEN Ref(id(C[i].v)) ELSE C[i].v]])

(* A claim changes the datums of its entity, and no others. *)
ApplyClaim(Own, M, c, t) ==
  LET old == {d \in Own : A(d) = c.a}
      same == {d \in old : V(d) = c.v}
  IN IF c.r THEN Own \ same
     ELSE IF same # {} THEN Own
     ELSE (IF IsMany(M, c.a) THEN Own ELSE Own \ old) \cup {<<c.e, c.a, c.v, t>>}

(* of: the datums of each entity that the claims are of. *)
RECURSIVE ApplyClaims(_, _, _, _, _)
ApplyClaims(of, M, cs, i, t) ==
  IF i > Len(cs) THEN of
  ELSE LET of2 == TLCEval([of EXCEPT ![cs[i].e] = ApplyClaim(@, M, cs[i], t)]) IN ApplyClaims(of2, M, cs, i + 1, t)

(* Retracting an entity takes what it had before the write. *)
Effect(D, M, cs, gone, t) ==
  LET touched == {cs[i].e : i \in DOMAIN cs}
      known == {E(d) : d \in D}
      of0 == TLCEval([e \in touched |-> IF e \in known THEN {d \in D : E(d) = e} ELSE {}])
      of == TLCEval(ApplyClaims(of0, M, cs, 1, t))
      N == {d \in D : E(d) \notin touched} \cup UNION {of[e] : e \in touched}
      keys == {EAV(d) : d \in gone}
  IN {d \in N : EAV(d) \notin keys}

----------------------------------------------------------------------------
(* What holds in every reachable state.                                    *)

OneDatumPerEAV(D) == Cardinality({EAV(d) : d \in D}) = Cardinality(D)
WellTyped(D, M) == \A d \in D : Typed(M, A(d), V(d))
CardinalityHolds(D, M) ==
  LET ones == {d \in D : ~IsMany(M, A(d))}
  IN Cardinality({<<E(d), A(d)>> : d \in ones}) = Cardinality({EAV(d) : d \in ones})
UniqueHolds(D, M) ==
  LET us == {d \in D : IsUnique(M, A(d))}
  IN Cardinality({<<A(d), V(d)>> : d \in us}) = Cardinality({EAV(d) : d \in us})
AttributesComplete(D, M) ==
  /\ \A a \in DOMAIN M :
       /\ Cardinality(ValuesOf(D, a, DbIdent)) = 1
       /\ Cardinality(ValuesOf(D, a, AttrType)) = 1 /\ ValuesOf(D, a, AttrType) \subseteq ValidTypes
       /\ Cardinality(ValuesOf(D, a, AttrUnique)) <= 1 /\ ValuesOf(D, a, AttrUnique) \subseteq ValidUniques
       /\ Cardinality(ValuesOf(D, a, AttrCardinality)) <= 1 /\ ValuesOf(D, a, AttrCardinality) \subseteq ValidCardinalities
  /\ \A d \in D : A(d) \in {AttrUnique, AttrCardinality} => E(d) \in DOMAIN M
(* Definitions never change from one state to the next. *)
AttributesKept(M, M2) == \A a \in DOMAIN M : a \in DOMAIN M2 /\ M2[a] = M[a]
SystemIntact(D) ==
  /\ SysDatums \subseteq D
  /\ \A d \in D : E(d) < FirstUserID => d \in SysDatums
  /\ \A d \in D : A(d) = DbIdent /\ E(d) >= FirstUserID => ~IsSysIdent(V(d)[2])
=============================================================================
