------------------------------ MODULE Concurrency ------------------------------
(***************************************************************************)
(* How writers, readers and holders of snapshots share a database.         *)
(*                                                                         *)
(* The indexes are copy-on-write trees.  A tree has a token, and owns the  *)
(* nodes that bear it: those it changes in place, others it copies first.  *)
(* To clone a tree gives new tokens to the clone and to the original, so   *)
(* cloning changes the original too.  One mutex serialises writers, and    *)
(* readers for as long as they clone.  Snapshots are used without it.      *)
(*                                                                         *)
(* Steps are as small as the accesses to what is shared.  Two processes    *)
(* about to access the same cell, one of them to change it, are a race.    *)
(*                                                                         *)
(* LockReads, CloneTypes and SnapInLock say whether the code takes the     *)
(* precautions it does; without any of them the properties do not hold,    *)
(* which the checks verify too.  That writers work on clones (CloneIndexes)*)
(* is of no consequence here, while readers exclude them.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Ops, Writers, Readers, LockReads, CloneTypes, CloneIndexes, SnapInLock

Procs == Writers \cup Readers
Idle == "idle"
NoOne == "no one"
Indexes == {"eav", "aev"}

VARIABLES
  lock,      \* who holds the mutex
  db,        \* what the database points to: a tree for each index, and the map of types
  trees,     \* of every tree, its token and its node
  nodes,     \* of every node, its owner and what it holds
  maps,      \* of every map of types, what it holds
  tok,       \* the last token
  pc,        \* where every process is
  mine,      \* the trees and the map of every process: a writer's clones, anyone's snapshot
  did,       \* how many operations of a process are done
  log,       \* the writes that took effect, in order
  floor,     \* how long the log was when the operation of the process began
  seen       \* what the snapshot of a process showed when first looked at

vars == <<lock, db, trees, nodes, maps, tok, pc, mine, did, log, floor, seen>>

(* What is done by one operation of a writer: its own value, and an attribute. *)
Value(p) == <<p, did[p]>>

Init ==
  /\ lock = NoOne
  /\ db = [eav |-> 1, aev |-> 2, types |-> 1]
  /\ trees = <<[tok |-> 1, node |-> 1], [tok |-> 2, node |-> 2]>>
  /\ nodes = <<[owner |-> 1, holds |-> {}], [owner |-> 2, holds |-> {}]>>
  /\ maps = <<{}>>
  /\ tok = 2
  /\ pc = [p \in Procs |-> Idle]
  /\ mine = [p \in Procs |-> [eav |-> 0, aev |-> 0, types |-> 0, seav |-> 0, saev |-> 0, stypes |-> 0]]
  /\ did = [p \in Procs |-> 0]
  /\ log = << >>
  /\ floor = [p \in Procs |-> 0]
  /\ seen = [p \in Procs |-> <<"nothing">>]

(* The steps of a write and of a read, in order. *)
WriteSteps ==
  <<"lock", "clone eav", "clone aev", "insert eav", "insert aev", "publish eav", "publish aev", "retype">>
  \o (IF SnapInLock THEN <<"snap eav", "snap aev", "unlock">> ELSE <<"unlock", "snap eav", "snap aev">>)
  \o <<"look", "look again", "done">>
ReadSteps ==
  (IF LockReads THEN <<"lock">> ELSE << >>) \o <<"snap eav", "snap aev">> \o (IF LockReads THEN <<"unlock">> ELSE << >>)
  \o <<"look", "look again", "done">>

Steps(p) == IF p \in Writers THEN WriteSteps ELSE ReadSteps
After(p) ==
  LET n == CHOOSE n \in DOMAIN Steps(p) : Steps(p)[n] = pc[p] IN IF n = Len(Steps(p)) THEN Idle ELSE Steps(p)[n + 1]

----------------------------------------------------------------------------
(* The cells a process is about to read and to change. *)

Reads(p) ==
  CASE pc[p] = "clone eav" -> {<<"db", "eav">>, <<"tree", db.eav>>}
    [] pc[p] = "clone aev" -> {<<"db", "aev">>, <<"tree", db.aev>>}
    [] pc[p] = "snap eav" -> {<<"db", "eav">>, <<"tree", db.eav>>, <<"db", "types">>}
    [] pc[p] = "snap aev" -> {<<"db", "aev">>, <<"tree", db.aev>>}
    [] pc[p] = "insert eav" -> {<<"tree", mine[p].eav>>, <<"node", trees[mine[p].eav].node>>, <<"types", db.types>>}
    [] pc[p] = "insert aev" -> {<<"tree", mine[p].aev>>, <<"node", trees[mine[p].aev].node>>, <<"types", db.types>>}
    [] pc[p] = "retype" -> {<<"db", "types">>, <<"types", db.types>>}
    [] pc[p] \in {"look", "look again"} ->
         {<<"tree", mine[p].seav>>, <<"tree", mine[p].saev>>, <<"node", trees[mine[p].seav].node>>, <<"node", trees[mine[p].saev].node>>, <<"types", mine[p].stypes>>}
    [] OTHER -> {}

Changes(p) ==
  CASE pc[p] = "clone eav" -> IF CloneIndexes THEN {<<"tree", db.eav>>} ELSE {}
    [] pc[p] = "clone aev" -> IF CloneIndexes THEN {<<"tree", db.aev>>} ELSE {}
    [] pc[p] = "snap eav" -> {<<"tree", db.eav>>}
    [] pc[p] = "snap aev" -> {<<"tree", db.aev>>}
    [] pc[p] = "insert eav" -> {<<"tree", mine[p].eav>>} \cup (IF nodes[trees[mine[p].eav].node].owner = trees[mine[p].eav].tok THEN {<<"node", trees[mine[p].eav].node>>} ELSE {})
    [] pc[p] = "insert aev" -> {<<"tree", mine[p].aev>>} \cup (IF nodes[trees[mine[p].aev].node].owner = trees[mine[p].aev].tok THEN {<<"node", trees[mine[p].aev].node>>} ELSE {})
    [] pc[p] = "publish eav" -> {<<"db", "eav">>}
    [] pc[p] = "publish aev" -> {<<"db", "aev">>}
    [] pc[p] = "retype" -> IF CloneTypes THEN {<<"db", "types">>} ELSE {<<"types", db.types>>}
    [] OTHER -> {}

----------------------------------------------------------------------------

Goes(p) == pc' = [pc EXCEPT ![p] = After(p)]

Begin(p) ==
  /\ pc[p] = Idle
  /\ did[p] < Ops
  /\ pc' = [pc EXCEPT ![p] = Steps(p)[1]]
  /\ floor' = [floor EXCEPT ![p] = Len(log)]
  /\ UNCHANGED <<lock, db, trees, nodes, maps, tok, mine, did, log, seen>>

Lock(p) ==
  /\ pc[p] = "lock" /\ lock = NoOne
  /\ lock' = p
  /\ Goes(p)
  /\ UNCHANGED <<db, trees, nodes, maps, tok, mine, did, log, floor, seen>>

Unlock(p) ==
  /\ pc[p] = "unlock"
  /\ lock' = NoOne
  /\ Goes(p)
  /\ UNCHANGED <<db, trees, nodes, maps, tok, mine, did, log, floor, seen>>

(* A clone shares the node and has a token of its own; so now has the original. *)
Cloned(t) == Append([trees EXCEPT ![t].tok = tok + 1], [tok |-> tok + 2, node |-> trees[t].node])

Clone(p, ix) ==
  /\ pc[p] = "clone " \o ix
  /\ IF CloneIndexes
     THEN /\ trees' = Cloned(db[ix]) /\ tok' = tok + 2
          /\ mine' = [mine EXCEPT ![p][ix] = Len(trees) + 1]
     ELSE /\ mine' = [mine EXCEPT ![p][ix] = db[ix]]
          /\ UNCHANGED <<trees, tok>>
  /\ Goes(p)
  /\ UNCHANGED <<lock, db, nodes, maps, did, log, floor, seen>>

Insert(p, ix) ==
  /\ pc[p] = "insert " \o ix
  /\ LET t == mine[p][ix] n == trees[t].node IN
     IF nodes[n].owner = trees[t].tok
     THEN /\ nodes' = [nodes EXCEPT ![n].holds = @ \cup {Value(p)}]
          /\ UNCHANGED trees
     ELSE /\ nodes' = Append(nodes, [owner |-> trees[t].tok, holds |-> nodes[n].holds \cup {Value(p)}])
          /\ trees' = [trees EXCEPT ![t].node = Len(nodes) + 1]
  /\ Goes(p)
  /\ UNCHANGED <<lock, db, maps, tok, mine, did, log, floor, seen>>

Publish(p, ix) ==
  /\ pc[p] = "publish " \o ix
  /\ db' = [db EXCEPT ![ix] = mine[p][ix]]
  /\ log' = IF ix = "eav" THEN Append(log, Value(p)) ELSE log
  /\ Goes(p)
  /\ UNCHANGED <<lock, trees, nodes, maps, tok, mine, did, floor, seen>>

(* The new attribute of the write. *)
Retype(p) ==
  /\ pc[p] = "retype"
  /\ IF CloneTypes
     THEN /\ maps' = Append(maps, maps[db.types] \cup {Value(p)})
          /\ db' = [db EXCEPT !.types = Len(maps) + 1]
     ELSE /\ maps' = [maps EXCEPT ![db.types] = @ \cup {Value(p)}]
          /\ UNCHANGED db
  /\ Goes(p)
  /\ UNCHANGED <<lock, trees, nodes, tok, mine, did, log, floor, seen>>

Snap(p, ix) ==
  /\ pc[p] = "snap " \o ix
  /\ trees' = Cloned(db[ix]) /\ tok' = tok + 2
  /\ mine' = [mine EXCEPT ![p]["s" \o ix] = Len(trees) + 1, ![p].stypes = IF ix = "eav" THEN db.types ELSE @]
  /\ Goes(p)
  /\ UNCHANGED <<lock, db, nodes, maps, did, log, floor, seen>>

Shown(p) == <<nodes[trees[mine[p].seav].node].holds, nodes[trees[mine[p].saev].node].holds, maps[mine[p].stypes]>>

Look(p) ==
  /\ pc[p] = "look"
  /\ seen' = [seen EXCEPT ![p] = Shown(p)]
  /\ Goes(p)
  /\ UNCHANGED <<lock, db, trees, nodes, maps, tok, mine, did, log, floor>>

LookAgain(p) ==
  /\ pc[p] = "look again"
  /\ Goes(p)
  /\ UNCHANGED <<lock, db, trees, nodes, maps, tok, mine, did, log, floor, seen>>

Done(p) ==
  /\ pc[p] = "done"
  /\ did' = [did EXCEPT ![p] = @ + 1]
  /\ mine' = [mine EXCEPT ![p] = [eav |-> 0, aev |-> 0, types |-> 0, seav |-> 0, saev |-> 0, stypes |-> 0]]
  /\ seen' = [seen EXCEPT ![p] = <<"nothing">>]
  /\ Goes(p)
  /\ UNCHANGED <<lock, db, trees, nodes, maps, tok, log, floor>>

Step(p) ==
  \/ Begin(p) \/ Lock(p) \/ Unlock(p) \/ Retype(p) \/ Look(p) \/ LookAgain(p) \/ Done(p)
  \/ \E ix \in Indexes : Clone(p, ix) \/ Insert(p, ix) \/ Publish(p, ix) \/ Snap(p, ix)

Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

----------------------------------------------------------------------------

NoRace ==
  \A p, q \in Procs : p # q =>
    /\ (Reads(p) \cup Changes(p)) \cap Changes(q) = {}

(* What a snapshot shows is what some prefix of the writes made, no earlier than the operation began; and a writer's snapshot has its write last. *)
Prefix(n) == {log[k] : k \in 1..n}
SnapshotsAtomic ==
  \A p \in Procs : pc[p] \in {"look again", "done"} =>
    \E n \in floor[p]..Len(log) :
      /\ seen[p] = <<Prefix(n), Prefix(n), Prefix(n)>>
      /\ p \in Writers => n > 0 /\ log[n] = Value(p)

SnapshotsKeep == \A p \in Procs : pc[p] \in {"look again", "done"} => Shown(p) = seen[p]

(* What is published hereafter holds what was. *)
NothingLost == lock = NoOne => nodes[trees[db.eav].node].holds = Prefix(Len(log)) /\ nodes[trees[db.aev].node].holds = Prefix(Len(log))

AllDone == (\A p \in Procs : pc[p] = Idle /\ did[p] = Ops)
NotStuck == AllDone \/ ENABLED Next

(* Everyone gets there, given only that no process stands still. *)
Finishes == <>AllDone

=============================================================================
