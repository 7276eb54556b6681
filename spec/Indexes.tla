------------------------------- MODULE Indexes -------------------------------
(***************************************************************************)
(* A datum index: a set of datums <<e, a, v, t>>, in which entity,         *)
(* attribute and value are the key, read in the order of its kind.         *)
(*                                                                         *)
(* Kinds are named by the order of their keys.  A partial key is a prefix  *)
(* of that order, for which an index answers questions; no VAE partial     *)
(* keys exist.                                                             *)
(***************************************************************************)
EXTENDS Values, FiniteSets, SequencesExt

Kinds == {"EAV", "AEV", "AVE", "VAE"}
Partials(kind) ==
  CASE kind = "EAV" -> {"EA", "E", "all"}
    [] kind = "AEV" -> {"AE", "A"}
    [] kind = "AVE" -> {"A", "AV"}
    [] OTHER -> {}

KeyOf(d) == <<d[1], d[2], d[3]>>

(* Is x before y?  Attributes have one type each, so that the values of    *)
(* one attribute are comparable; those of several never need to be.        *)
Before(kind, x, y) ==
  LET e == x[1] - y[1] a == x[2] - y[2] v == Rank(x[3]) - Rank(y[3]) IN
  CASE kind = "EAV" -> e < 0 \/ (e = 0 /\ (a < 0 \/ (a = 0 /\ v < 0)))
    [] kind = "AEV" -> a < 0 \/ (a = 0 /\ (e < 0 \/ (e = 0 /\ v < 0)))
    [] kind = "AVE" -> a < 0 \/ (a = 0 /\ (v < 0 \/ (v = 0 /\ e < 0)))
    [] OTHER -> FALSE

Ascending(kind, seq) == \A n \in 1..(Len(seq) - 1) : Before(kind, seq[n], seq[n + 1])

(* What a partial key selects.  The other parts of q do not matter. *)
Selection(S, p, q) ==
  CASE p = "all" -> S
    [] p = "E" -> {d \in S : d[1] = q[1]}
    [] p = "EA" -> {d \in S : d[1] = q[1] /\ d[2] = q[2]}
    [] p = "AE" -> {d \in S : d[1] = q[1] /\ d[2] = q[2]}
    [] p = "A" -> {d \in S : d[2] = q[2]}
    [] p = "AV" -> {d \in S : d[2] = q[2] /\ d[3] = Canon(q[3])}

Has(S, d) == \E x \in S : x[1] = d[1] /\ x[2] = d[2] /\ x[3] = Canon(d[3])
Inserted(S, d) == IF Has(S, d) THEN S ELSE S \cup {<<d[1], d[2], Canon(d[3]), d[4]>>}
Deleted(S, d) == {x \in S : ~(x[1] = d[1] /\ x[2] = d[2] /\ x[3] = Canon(d[3]))}

IsFirst(kind, S, d) == d \in S /\ \A x \in S : x = d \/ Before(kind, d, x)

----------------------------------------------------------------------------
(* Batches: the resulting set and whether each datum was there before it.  *)

Batch(S, op(_, _), ds) ==
  FoldLeft(LAMBDA acc, d : [set |-> op(acc.set, d), was |-> Append(acc.was, Has(acc.set, d))],
           [set |-> S, was |-> << >>], ds)
=============================================================================
