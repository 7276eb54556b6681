--------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* Checks histories in which several processes write and read at once.     *)
(*                                                                         *)
(* The specification of Destructive is sequential: a request is one step.  *)
(* Concurrent requests are linearizable iff there is an order of them,     *)
(* consistent with real time, in which every response is the sequential    *)
(* one.  Transaction ids fix the order of accepted writes, so nothing has  *)
(* to be searched for: the harness lists the accepted writes by their ids  *)
(* and every one of them is judged as a step of its own from the state     *)
(* left by the one before.  The states so passed through are the log.      *)
(* What else happened - reads, rejected writes - must be justified by one  *)
(* of these states, and by one within the time of the operation.  Every    *)
(* accepted write leaves a datum of its own, so the states of the log      *)
(* differ from each other, and a snapshot tells its position.              *)
(*                                                                         *)
(* Times are draws from one counter: call before the operation began, ret  *)
(* after it ended.                                                         *)
(***************************************************************************)
EXTENDS Trace

VARIABLES log,   \* the states since the processes started: [d, hw, call, ret]
          maxcall,  \* the latest call of the accepted writes so far
          seen   \* the positions in the log that reads have seen: <<position, call, ret>>

lvars == <<h, i, D, hw, snaps, rejected, log, maxcall, seen>>

LInit == Init /\ log = << >> /\ maxcall = 0 /\ seen = {}

Sequential ==
  /\ New \/ Write \/ Query \/ Keep \/ Drop \/ Observe \/ Rest
  /\ UNCHANGED <<log, maxcall, seen>>

(* The processes start. *)
Fork ==
  /\ i > 1 /\ Ev(h, i).k = "fork"
  /\ log' = << [d |-> D, hw |-> hw, call |-> 0, ret |-> 0] >>
  /\ maxcall' = 0
  /\ seen' = {}
  /\ UNCHANGED <<D, hw, snaps, rejected>>

(* An accepted write, the next in the order of transaction ids. *)
Accepted ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "cw"
  /\ TLCEval(WriteConforms(e, h, i, D, hw, rejected))
  /\ Fail(e.ret > maxcall, h, i, "order of transactions against time", {"C19", "C08"}, <<e.id, e.call, e.ret, maxcall>>)
  /\ Fail(e.views = << >>, h, i, "the views of a snapshot differ", {"C19", "C13"}, e.views)
  /\ Fail(e.stable, h, i, "snapshot changed", {"C19", "C02"}, e.id)
  /\ \E D2 \in {TLCEval(After(D, e))} :
     \E hw2 \in {LET S == {hw, e.id} \cup {p[2] : p \in Set(e.temps)} IN CHOOSE x \in S : \A y \in S : y <= x} :
       /\ Fail(\A k \in DOMAIN log : log[k].d # D2, h, i, "a write without a trace", {"C19", "C01", "C03"}, e.id)
       /\ D' = D2
       /\ hw' = hw2
       /\ log' = Append(log, [d |-> D2, hw |-> hw2, call |-> e.call, ret |-> e.ret])
  /\ maxcall' = IF e.call > maxcall THEN e.call ELSE maxcall
  /\ UNCHANGED <<snaps, rejected, seen>>

(* A read, or a write that was rejected.  What it saw is given as the      *)
(* difference to the state at some position.                               *)
Reader ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "cr"
  /\ \E S \in {TLCEval((log[e.at].d \cup Set(e.add)) \ Set(e.del))} :
     \E ks \in {TLCEval({k \in DOMAIN log : log[k].d = S})} :
       /\ PrintT("@@R " \o ToString(<<h, i, e.rej, e.at, Len(log), e.call, e.ret>>))
       /\ IF e.panic # "" THEN Fail(FALSE, h, i, "concurrent operation panics", {"C19", "C20", "C29"}, e.panic)
          ELSE
          /\ Fail(~e.snil, h, i, "no snapshot", {"C19", "C01", "C29"}, 0)
          /\ Fail(ks # {}, h, i, "a snapshot of no prefix of the writes", {"C19"} \cup (IF e.rej THEN {"C01"} ELSE {}),
                  <<e.at, Set(e.add), Set(e.del)>>)
          /\ Fail(e.n = Cardinality(S), h, i, "datums selected several times", {"C13", "C14", "C19"}, <<e.n, Cardinality(S)>>)
          /\ Fail(e.views = << >>, h, i, "the views of a snapshot differ", {"C19", "C13"}, e.views)
          /\ Fail(e.stable, h, i, "snapshot changed", {"C19", "C02"}, e.at)
          /\ \A k \in ks :
               /\ Fail(\A n \in DOMAIN log : log[n].ret < e.call => n <= k, h, i, "a finished write is not seen", {"C19"}, <<k, e.call, e.ret>>)
               /\ Fail(log[k].call < e.ret, h, i, "a write is seen before it began", {"C19"}, <<k, e.call, e.ret>>)
               /\ Fail(\A s \in seen : s[3] < e.call => s[1] <= k, h, i, "reads go back in time", {"C19"}, <<k, e.call, e.ret>>)
               /\ Names(log[k].d, e, h, i, {"C19"})
               /\ e.rej =>
                    \E X \in {TLCEval(Evaluate(log[k].d, Meta(log[k].d), log[k].hw, e.req))} :
                      Fail(X.rej # {} \/ X.may, h, i, "rejected", {"C19", "C01"}, <<e.err, e.req>>)
       /\ seen' = seen \cup {<<k, e.call, e.ret>> : k \in ks}
  /\ UNCHANGED <<D, hw, snaps, rejected, log, maxcall>>

(* The processes do not come to an end. *)
Hang ==
  LET e == Ev(h, i) IN
  /\ i > 1 /\ e.k = "hang"
  /\ Fail(FALSE, h, i, "deadlock", {"C20", "C19"}, e.what)
  /\ UNCHANGED <<D, hw, snaps, rejected, log, maxcall, seen>>

LNext ==
  /\ i <= Len(Histories[h].events)
  /\ Sequential \/ Fork \/ Accepted \/ Reader \/ Hang
  /\ i' = i + 1
  /\ h' = h

LSpec == LInit /\ [][LNext]_lvars
=============================================================================
