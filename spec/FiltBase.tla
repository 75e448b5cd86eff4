------------------------------ MODULE FiltBase ------------------------------
(* What the specifications of single filters share.  A client session's       *)
(* request (creq) is on until its answer (cresp); what the filter sends on    *)
(* reaches the back end as breq in the same session, answered by bresp.       *)
(* Requests of other clients may happen while a back end is at work, so       *)
(* there is one record per session of what is going on.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Rng(q) == {q[i] : i \in 1..Len(q)}
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowS(q) == [i \in 1..Len(q) |-> Low(q[i])]
None == [t |-> "none"]
DiagIs(r, t, ref, code, add) == r.t = t /\ r.ref = ref /\ r.diag = code /\ r.add = add
Failed(r, t) == r.t = t /\ CASE t = "searchr" -> r.status = 0 /\ r.hits = 0
                  [] t = "presentr" -> r.pstatus = 5
                  [] t = "scanr" -> r.status = 6
                  [] t = "initr" -> ~r.ok
Ended(e) == e.r.t = "none" /\ e.closed
IsZ(r) == r.t \notin {"none", "http", "httpr"}
=============================================================================
