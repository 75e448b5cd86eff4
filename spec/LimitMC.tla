------------------------------ MODULE LimitMC ------------------------------
(* Two sessions under all small limits, with any pauses: delays start when a  *)
(* limit is reached, not before, not because of the other session, and they   *)
(* keep the number of requests in any minute near the limit.                  *)
EXTENDS LimitOps
CONSTANTS MaxReq, Sess
VARIABLES st, k, due      \* due: the delay not slept yet (session, seconds)
Reqs == {[t |-> "search", num |-> 0], [t |-> "present", num |-> 3]}
Ans(r) == [op |-> "bresp", r |-> [t |-> "ok"], closed |-> FALSE, s |-> 0]
Init == \E b \in {0, 2}, pd \in {0, 1, 2}, se \in {0, 1, 2}, re \in {0, 2} :
          st = [MStart EXCEPT !.p = [bw |-> b, pdu |-> pd, search |-> se, retrieve |-> re]] /\ k = 0 /\ due = <<>>
Ev == UNION {
  {[op |-> "time", n |-> n] : n \in IF DOMAIN st.cur = {} THEN {1, 31, 60} ELSE {}},
  {[op |-> "creq", s |-> x, closed |-> FALSE, sz |-> 1, r |-> r] : x \in Sess, r \in Reqs},
  {[op |-> "breq", s |-> x, closed |-> FALSE, r |-> [st.cur[x].r EXCEPT !.num = n]] : x \in {y \in DOMAIN st.cur : ~st.cur[y].sent}, n \in {0, 2, 3}},
  {[op |-> "bresp", s |-> x, closed |-> FALSE, r |-> [t |-> "ok"]] : x \in {y \in DOMAIN st.cur : st.cur[y].sent /\ st.cur[y].last.t = "none"}},
  {[op |-> "sleep", n |-> n] : n \in IF DOMAIN st.cur # {} /\ st.slept = 0 THEN 1..70 ELSE {}},
  {[op |-> "cresp", s |-> x, closed |-> FALSE, sz |-> 0, r |-> [t |-> "ok"]] : x \in DOMAIN st.cur}}
(* one request at a time: the delay belongs to the one being answered *)
Next == \E e \in Ev :
  /\ MAllowed(st, e)
  /\ e.op = "creq" => k < MaxReq /\ DOMAIN st.cur = {}
  /\ e.op = "time" => k < MaxReq
  (* sleep exactly what is asked for *)
  /\ e.op = "sleep" => \A x \in DOMAIN st.cur : st.cur[x].last.t = "ok" /\ e.n = Delay(Counted(st, [s |-> x, sz |-> 0]), x)
  /\ st' = MApply(st, e)
  /\ k' = IF e.op \in {"creq", "time"} THEN k + 1 ELSE k
  /\ UNCHANGED due
Spec == Init /\ [][Next]_<<st, k, due>>
Answered == \A x \in DOMAIN st.cur : st.cur[x].last.t = "ok" =>
   \E n \in 0..130 : n = Delay(Counted([st EXCEPT !.now = @ + n - st.slept, !.slept = n], [s |-> x, sz |-> 0]), x)
(* within the limits nothing is delayed *)
Free == \A x \in DOMAIN st.cur : st.cur[x].last.t = "ok" /\ st.slept > 0 =>
   LET g == LogOf(Counted(st, [s |-> x, sz |-> 0]), x)
       s0 == [st EXCEPT !.now = @ - st.slept]
   IN \/ st.p.search > 0 /\ Total(s0, g.search) >= st.p.search
      \/ st.p.bw > 0 /\ Total(s0, g.bw) >= st.p.bw
      \/ st.p.pdu > 0 /\ Total(s0, g.pdu) > st.p.pdu
(* requests in the last minute stay near the limit *)
Near == \A x \in DOMAIN st.log : st.p.pdu > 0 => Total(st, st.log[x].pdu) <= st.p.pdu + 1
(* nothing is asked beyond the retrieve limit: by MAllowed; restated *)
Capped == \A x \in DOMAIN st.cur : st.p.retrieve > 0 /\ st.cur[x].r.t = "present" => Asked(st.p, st.cur[x].r).num <= st.p.retrieve
=============================================================================
