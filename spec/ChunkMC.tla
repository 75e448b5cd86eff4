------------------------------ MODULE ChunkMC ------------------------------
(* A back end that returns the records asked for, fewer, more, none or a      *)
(* failure: the client gets consecutive records, at most what it asked for,   *)
(* after at most that many requests.                                          *)
EXTENDS ChunkOps
CONSTANT MaxN
VARIABLES st, asked, n      \* asked: request at the back end; n: how many went there
Init == \E c \in 0..3, num \in -1..MaxN, start \in {1, 4} :
          /\ st = CApply([CStart EXCEPT !.p = [chunk |-> c]], [op |-> "creq", s |-> 1, closed |-> FALSE,
                        r |-> [t |-> "present", ref |-> "x", start |-> start, num |-> num]])
          /\ asked = None /\ n = 0
Pres(recs) == [t |-> "presentr", ref |-> "x", kind |-> "recs", n |-> Len(recs), recs |-> recs, diag |-> 0]
Fail == [t |-> "presentr", ref |-> "x", kind |-> "nsd", n |-> 0, recs |-> <<>>, diag |-> 13]
Next ==
  \/ /\ asked.t # "none"
     /\ \E m \in 0..4, c \in BOOLEAN, f \in BOOLEAN :
          LET q == asked IN
          /\ m <= q.num + 1
          /\ st' = CApply(st, [op |-> "bresp", s |-> 1, closed |-> c, r |-> IF f THEN Fail ELSE Pres([i \in 1..m |-> q.start + i - 1])])
     /\ asked' = None /\ n' = n
  \/ /\ asked.t = "none" /\ 1 \in DOMAIN st.cur
     /\ LET c == st.cur[1] IN
        \E d \in 0..MaxN, m \in -1..MaxN :
          LET e == [op |-> "breq", s |-> 1, closed |-> FALSE, r |-> [c.r EXCEPT !.start = @ + d, !.num = m]]
          IN CAllowed(st, e) /\ st' = CApply(st, e) /\ asked' = e.r /\ n' = n + 1
  \/ /\ asked.t = "none" /\ 1 \in DOMAIN st.cur
     /\ LET c == st.cur[1] IN
        \E r \in {c.last, [c.last EXCEPT !.ref = c.r.ref, !.n = Len(c.recs), !.recs = c.recs]}, cl \in BOOLEAN :
          LET e == [op |-> "cresp", s |-> 1, closed |-> cl, r |-> r]
          IN c.last.t # "none" /\ CAllowed(st, e)
             /\ Assert(Chunked(st, c.r) /\ r.kind = "recs" /\ ~cl => Len(r.recs) <= c.r.num /\ \A i \in 1..Len(r.recs) : r.recs[i] = c.r.start + i - 1, <<"wrong records", r>>)
             /\ st' = CApply(st, e) /\ UNCHANGED <<asked, n>>
Spec == Init /\ [][Next]_<<st, asked, n>>
Few == 1 \in DOMAIN st.cur => n <= (IF st.cur[1].r.num < 1 THEN 1 ELSE st.cur[1].r.num)
Small == (asked.t = "present" /\ st.p.chunk > 0 /\ asked.num > 0) => asked.num <= st.p.chunk
Goes == DOMAIN st.cur = {} \/ ENABLED Next
=============================================================================
