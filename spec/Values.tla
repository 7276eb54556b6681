------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Values.  A value is a pair <<tag, payload>>; the tag is its type, the   *)
(* payload a token (strings, ints, floats, instants, booleans) or, for     *)
(* references, the entity id itself.                                       *)
(*                                                                         *)
(* Raw values, as they are given in requests and queries, may carry a      *)
(* third component: a variant that denotes the same value (an instant in   *)
(* another zone or with a fraction of a millisecond, negative zero).       *)
(*                                                                         *)
(* The tokens of each ordered type are listed in their natural order; the  *)
(* harness verifies on start that its values of these tokens are so        *)
(* ordered by the language.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Types == {"str", "int", "bool", "inst", "float", "id"}

StrOrder == << "~empty", "~nul", "~space", "A", "Ab", "B", "a", "~aspace", "ab", "b", "c",
               "~ecomb", "~long", "~longb", "zz", "~eacute", "~cjk", "~bad" >>
(* The integers from CrowdBase are for the entities that have a great many. *)
CrowdBase == 1000
CrowdSize == 600
IntOrder == << "-9223372036854775808", "-9007199254740993", "-7", "-1", "0", "1", "2", "3",
               "4", "5", "7", "40" >>
            \o [nth \in 1..CrowdSize |-> ToString(CrowdBase + nth - 1)]
            \o << "4294967296", "9007199254740993", "9223372036854775807" >>
FloatOrder == << "NaN", "-Inf", "-1e+308", "-1.5", "-0.1", "-5e-324", "0", "5e-324", "0.1",
                 "1.5", "1e+308", "+Inf" >>
InstOrder == << "-62135596800000", "-1000", "-1", "0", "1", "1666000000123", "253402300799999" >>
BoolOrder == << "false", "true" >>

ElemsOf(s) == {s[nth] : nth \in DOMAIN s}
Index(s) == TLCEval([tok \in ElemsOf(s) |-> CHOOSE nth \in DOMAIN s : s[nth] = tok])
(* TLC evaluates these once and for all, as no variable has the name of one bound here. *)
StrRank == Index(StrOrder)
IntRank == Index(IntOrder)
FloatRank == Index(FloatOrder)
InstRank == Index(InstOrder)
BoolRank == Index(BoolOrder)

(* Where a value stands among the values of its type. *)
Rank(v) ==
  CASE v[1] = "id" -> v[2]
    [] v[1] = "str" -> IF v[2] \in DOMAIN StrRank THEN StrRank[v[2]] ELSE 0
    [] v[1] = "int" -> IF v[2] \in DOMAIN IntRank THEN IntRank[v[2]] ELSE 0
    [] v[1] = "float" -> IF v[2] \in DOMAIN FloatRank THEN FloatRank[v[2]] ELSE 0
    [] v[1] = "inst" -> IF v[2] \in DOMAIN InstRank THEN InstRank[v[2]] ELSE 0
    [] v[1] = "bool" -> IF v[2] \in DOMAIN BoolRank THEN BoolRank[v[2]] ELSE 0
    [] OTHER -> 0

(* The value that a raw value denotes. *)
Canon(v) == IF Len(v) = 3 /\ v[1] \in Types THEN <<v[1], v[2]>> ELSE v

Str(s) == <<"str", s>>
Ref(n) == <<"id", n>>
=============================================================================
