-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* What the trace specifications share: reporting what does not conform,   *)
(* attributing it to properties, and the invariants of observed states.    *)
(***************************************************************************)
EXTENDS Destructive

Set(s) == {s[k] : k \in DOMAIN s}

(* Nothing is printed for what conforms. *)
Fail(ok, hh, ii, kind, props, detail) ==
  IF ok THEN TRUE ELSE PrintT("@@FAIL " \o ToString(<<hh, ii, kind, props, detail>>))

----------------------------------------------------------------------------
(* What a request exercises, for attributing a failure to properties.      *)

RECURSIVE RefKinds(_)
RefKinds(r) == IF r[1] = "lookup" THEN {"lookup"} \cup RefKinds(r[2]) \cup RefKinds(r[3]) ELSE {r[1]}

Special == {"~empty", "~nul", "~space", "~aspace", "~ecomb", "~long", "~longb", "~eacute", "~cjk", "~bad", "NaN", "-Inf", "+Inf",
            "-9223372036854775808", "9223372036854775807", "-9007199254740993", "9007199254740993"}
IsSpecial(v) == \/ Len(v) = 3
                \/ v[1] \in {"inst", "float"}
                \/ v[1] \in {"str", "int"} /\ v[2] \in Special
                \/ v[1] = "int" /\ IntRank["0"] > Rank(v)

ReqProps(M, req, X) ==
  LET C == Set(req.claims)
      kinds == UNION {RefKinds(c[1]) \cup RefKinds(c[2]) \cup RefKinds(c[3]) : c \in C}
      X1 == Set(X)
  IN {"C03", "C01"}
     \cup (IF "temp" \in kinds THEN {"C06", "C08"} ELSE {})
     \cup (IF kinds \cap {"ident", "lookup", "txn", "bad", "nil"} # {} THEN {"C16"} ELSE {})
     \cup (IF Len(req.rets) > 0 THEN {"C17"} ELSE {})
     \cup (IF \E c \in C : c[3][1] \in Types /\ IsSpecial(c[3]) THEN {"C18"} ELSE {})
     \cup (IF \E x \in X1 : IsUnique(M, x.a) THEN {"C07", "C05"} ELSE {})
     \cup (IF \E x \in X1 : x.a = DbIdent THEN {"C12"} ELSE {})
     \cup (IF \E x \in X1 : x.a \in DefAttrs \/ IsAttrTerm(M, x.e) THEN {"C10"} ELSE {})
     \cup (IF \E x \in X1 : x.e[1] = "e" /\ x.e[2] < FirstUserID THEN {"C11"} ELSE {})
     \cup (IF kinds \cap {"bad", "nil"} # {} THEN {"C29"} ELSE {})
     \cup (IF C # {} THEN {"C04"} ELSE {})

(* The properties that have a request rejected for a reason. *)
ReasonProps(why) ==
  CASE why \in {"badE"} -> {"C16", "C29"}
    [] why \in {"badA", "badV"} -> {"C16", "C09", "C29"}
    [] why \in {"notattr", "type"} -> {"C09", "C16", "C29"}
    [] why = "unique" -> {"C05", "C06", "C07"}
    [] why = "card" -> {"C04"}
    [] why \in {"sys", "sysident"} -> {"C11"}
    [] why = "attr" -> {"C10"}
    [] why \in {"retract-none", "retract-unresolved", "retract-several"} -> {"C17", "C29"}
    [] why = "retract-attr" -> {"C17", "C10"}
    [] OTHER -> {}

(* The properties that concern a datum that should or should not be there. *)
DatumProps(D0, M, gone, d) ==
  {"C03"}
  \cup (IF A(d) \in DefAttrs \/ E(d) \in DOMAIN M THEN {"C10"} ELSE {})
  \cup (IF E(d) < FirstUserID THEN {"C11"} ELSE {})
  \cup (IF A(d) = DbIdent THEN {"C12"} ELSE {})
  \cup (IF IsUnique(M, A(d)) THEN {"C05"} ELSE {})
  \cup (IF \E g \in gone : EAV(g) = EAV(d) \/ E(g) = E(d) THEN {"C17"} ELSE {})
  \cup (IF IsSpecial(V(d)) THEN {"C18"} ELSE {})
  \cup (IF \E o \in D0 : E(o) = E(d) /\ A(o) = A(d) /\ V(o) # V(d) THEN {"C04"} ELSE {})
  \cup (IF ~Typed(M, A(d), V(d)) THEN {"C09"} ELSE {})

----------------------------------------------------------------------------
(* The state that an observed change leads to. *)
After(D0, e) == (D0 \ Set(e.del)) \cup Set(e.add)

Invariants(D2, hh, ii) ==
  LET M2 == Meta(D2) IN
  /\ Fail(OneDatumPerEAV(D2), hh, ii, "two datums for one entity, attribute and value", {"C03", "C13"}, 0)
  /\ Fail(WellTyped(D2, M2), hh, ii, "ill-typed datum", {"C09"}, {d \in D2 : ~Typed(M2, A(d), V(d))})
  /\ Fail(CardinalityHolds(D2, M2), hh, ii, "several values for cardinality one", {"C04", "C18"}, 0)
  /\ Fail(UniqueHolds(D2, M2), hh, ii, "several holders of a unique value", {"C05"}, 0)
  /\ Fail(AttributesComplete(D2, M2), hh, ii, "incomplete attribute", {"C10"}, 0)
  /\ Fail(SystemIntact(D2), hh, ii, "system datums", {"C11"},
          (SysDatums \ D2) \cup {d \in D2 : E(d) < FirstUserID /\ d \notin SysDatums})
=============================================================================
