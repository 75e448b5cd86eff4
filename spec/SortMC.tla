------------------------------- MODULE SortMC -------------------------------
(* One client, two result sets of up to three records, every prefetch limit   *)
(* and direction, and a back end that may return less or fail.                *)
EXTENDS SortOps
CONSTANT MaxReq
VARIABLES st, k, asked
Rec(i) == [k |-> "rec", syn |-> "XML", v |-> <<"c", "a", "b">>[i]]
Rank == [a |-> 1, b |-> 2, c |-> 2]
SR(x, rep) == [t |-> "search", ref |-> "s", set |-> x, rep |-> rep, syn |-> "XML", ssub |-> 2, lslb |-> 3, mspn |-> 0, sesn |-> "B", mesn |-> "F"]
PR(x, start, num) == [t |-> "present", ref |-> "p", set |-> x, start |-> start, num |-> num, syn |-> "XML", esn |-> ""]
Reqs == {SR("A", b) : b \in BOOLEAN} \cup {PR(x, a, n) : x \in {"A", "B"}, a \in 0..3, n \in {0, 1, 2, 3}}
Min2(a, b) == IF a < b THEN a ELSE b
Res(q, m) == IF q.t = "search" THEN [t |-> "searchr", ref |-> q.ref, hits |-> 3, kind |-> IF m = 0 THEN "none" ELSE "recs", recs |-> [i \in 1..m |-> Rec(i)], n |-> m, status |-> 1, diag |-> 0, add |-> ""]
             ELSE [t |-> "presentr", ref |-> q.ref, kind |-> "recs", recs |-> [i \in 1..m |-> Rec(q.start + i - 1)], n |-> m, pstatus |-> 0, diag |-> 0, add |-> ""]
Bad(q) == IF q.t = "search" THEN [t |-> "searchr", ref |-> q.ref, hits |-> 0, kind |-> "nsd", recs |-> <<>>, n |-> 0, status |-> 0, diag |-> 9, add |-> ""]
          ELSE [t |-> "presentr", ref |-> q.ref, kind |-> "nsd", recs |-> <<>>, n |-> 0, pstatus |-> 5, diag |-> 13, add |-> ""]
Start0 == [SStart EXCEPT !.cl = (1 :> [virt |-> TRUE, sets |-> <<>>])]
Init == \E f \in 0..3, u \in BOOLEAN : st = [Start0 EXCEPT !.p = [prefetch |-> f, up |-> u, rank |-> Rank]] /\ k = 0 /\ asked = None
C == st.cur[1]
On == 1 \in DOMAIN st.cur
Answers == {IF C.sorting THEN [C.last EXCEPT !.recs = SubSeq(Sorted(st, C.recs), 1, Len(C.last.recs))] ELSE C.last}
Locals == {[t |-> "searchr", ref |-> "s", hits |-> 0, status |-> 0, diag |-> 21, add |-> ""],
           [t |-> "presentr", ref |-> "p", pstatus |-> 5, diag |-> 30, add |-> C.r.set]}
          \cup (IF Exists(st, 1, C.r) /\ C.r.t = "present" /\ Cached(st, 1, C.r)
                THEN {[t |-> "presentr", ref |-> "p", pstatus |-> 0, diag |-> 0, n |-> C.r.num, recs |-> SubSeq(ListOf(st, 1, C.r)[C.r.syn], C.r.start, C.r.start + C.r.num - 1)]} ELSE {})
Next ==
  \/ ~On /\ k < MaxReq /\ \E r \in Reqs : st' = TApply(st, [op |-> "creq", s |-> 1, closed |-> FALSE, r |-> r]) /\ k' = k + 1 /\ asked' = None
  \/ On /\ asked.t = "none" /\ \E r \in {C.r, [PR(C.r.set, Len(C.recs) + 1, End(st, C) - Len(C.recs)) EXCEPT !.ref = "", !.esn = IF C.r.t = "search" THEN SearchEsn(C.r, C.hits) ELSE C.r.esn]} :
       LET e == [op |-> "breq", s |-> 1, closed |-> FALSE, r |-> r] IN TAllowed(st, e) /\ st' = TApply(st, e) /\ asked' = r /\ k' = k
  \/ asked.t # "none" /\ \E a \in {Bad(asked)} \cup {Res(asked, m) : m \in 0..(IF asked.t = "search" THEN 2 ELSE IF asked.start < 1 THEN 0 ELSE Min2(asked.num, 4 - asked.start))} :
       st' = TApply(st, [op |-> "bresp", s |-> 1, closed |-> FALSE, r |-> a]) /\ asked' = None /\ k' = k
  \/ On /\ asked.t = "none" /\ \E r \in (IF C.got THEN Answers ELSE {}) \cup Locals :
       LET e == [op |-> "cresp", s |-> 1, closed |-> FALSE, r |-> r] IN TAllowed(st, e) /\ st' = TApply(st, e) /\ UNCHANGED <<k, asked>>
Spec == Init /\ [][Next]_<<st, k, asked>>
Lists == {st.cl[1].sets[x].lists["XML"] : x \in {y \in DOMAIN st.cl[1].sets : "XML" \in DOMAIN st.cl[1].sets[y].lists}}
InOrder == \A q \in Lists : \A i \in 1..(Len(q) - 1) :
   IF st.p.up THEN Rank[q[i].v] <= Rank[q[i + 1].v] ELSE Rank[q[i].v] >= Rank[q[i + 1].v]
(* the first records, each once *)
Whole == \A q \in Lists : Rng(q) = {Rec(i) : i \in 1..Len(q)} /\ Cardinality(Rng(q)) = Len(q)
Goes == On => ENABLED Next
=============================================================================
