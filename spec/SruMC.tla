------------------------------ MODULE SruMC ------------------------------
(* Every request for some records against every back end that gives any       *)
(* number of records, none, or a diagnostic: consecutive records, at most as  *)
(* many as asked for and the limit, bounded work, and the session is closed.  *)
EXTENDS SruOps
CONSTANT MaxN
VARIABLES st, n, ends
Q(start, max, ttl) == [op |-> "search", hasq |-> TRUE, qs |-> "x", badq |-> ttl, auth |-> "none", open |-> "", user |-> "", pass |-> "",
                  vh |-> <<>>, oi |-> "", dbs |-> <<"D">>, start |-> start, max |-> max, xpath |-> FALSE, sort |-> FALSE,
                  schema |-> "", packing |-> "xml", pre |-> <<>>]
http == [t |-> "http", ver |-> "1.1", h |-> <<<<"X-Id", "1">>>>]
DD == [x \in {"1", "13"} |-> 1]
Init == \E start \in -1..MaxN, max \in -1..MaxN, lim \in 0..2, b \in BOOLEAN :
          /\ st = SApply([SStart EXCEPT !.p = [reqs |-> [x \in {"1"} |-> Q(start, max, b)], limit |-> lim, d |-> DD]],
                         [op |-> "creq", s |-> 1, r |-> http, closed |-> FALSE])
          /\ n = 0 /\ ends = 0
Rec(i) == [k |-> "rec", syn |-> "XML", v |-> ToString(i), code |-> 0, add |-> ""]
Resp(c) ==
  LET nsd(t) == [t |-> t, kind |-> "nsd", diag |-> 1, add |-> "", hits |-> 0, recs |-> <<>>]
      odd == [t |-> "close"]
  IN CASE c.state = "initw" -> {[t |-> "initr", ok |-> b, diag |-> d, add |-> ""] : b \in BOOLEAN, d \in {0, 1}} \cup {odd, None}
       [] c.state = "searchw" -> {[t |-> "searchr", kind |-> "none", hits |-> h, diag |-> 0, recs |-> <<>>] : h \in 0..MaxN} \cup {nsd("searchr"), odd, None}
       [] c.state = "presentw" -> {[t |-> "presentr", kind |-> "recs", recs |-> [i \in 1..m |-> Rec(c.q.start + Len(c.recs) + i - 1)]] : m \in 0..MaxN + 1}
                                  \cup {nsd("presentr"), odd, None, [t |-> "presentr", kind |-> "none", recs |-> <<>>]}
Next ==
  /\ 1 \in DOMAIN st.cur
  /\ LET c == st.cur[1] IN
     IF c.state \in {"init", "search", "present"}
     THEN /\ SAllowed(st, [op |-> "breq", s |-> 1, r |-> Ask(c), closed |-> FALSE])
          /\ st' = SApply(st, [op |-> "breq", s |-> 1, r |-> Ask(c), closed |-> FALSE]) /\ n' = n + 1 /\ ends' = ends
     ELSE IF c.state \in {"initw", "searchw", "presentw"}
     THEN \E r \in Resp(c) : st' = SApply(st, [op |-> "bresp", s |-> 1, r |-> r, closed |-> FALSE]) /\ UNCHANGED <<n, ends>>
     ELSE IF c.state = "close"
     THEN st' = SApply(st, [op |-> "breq", s |-> 1, r |-> None, closed |-> TRUE]) /\ ends' = ends + 1 /\ n' = n
     ELSE st' = SApply(st, [op |-> "cresp", s |-> 1, r |-> None, closed |-> FALSE]) /\ UNCHANGED <<n, ends>>
Spec == Init /\ [][Next]_<<st, n, ends>>
C == st.cur[1]
On == 1 \in DOMAIN st.cur
Few == On => n <= 2 + (IF C.q.max > 0 THEN C.q.max ELSE 0)
Right == On => /\ Len(C.recs) <= (IF C.q.max > 0 THEN C.q.max ELSE 0)
               /\ st.p.limit > 0 => Len(C.recs) <= st.p.limit
               /\ \A i \in 1..Len(C.recs) : C.recs[i].pos = C.q.start + i - 1 /\ C.recs[i].v = ToString(C.recs[i].pos) /\ C.recs[i].pos <= C.hits
(* one close for every session that was begun *)
Closed == On /\ C.state = "answer" => ends = 1
Goes == ~On \/ ENABLED Next
=============================================================================
