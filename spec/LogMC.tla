------------------------------- MODULE LogMC --------------------------------
(* All histories of two sessions through one or two log filters that LogOps    *)
(* allows: every request and answer has its entries, none is lost, none is     *)
(* about something else, and the user in it is who the session said it is.     *)
EXTENDS LogOps
CONSTANTS Sessions, MaxQ, Filters
VARIABLES s, n, w, said, gone
(* w: how many entries are written, of a request, when; said: who sessions said they are *)
vars == <<s, n, w, said, gone>>

F(i, file) == [msg |-> "M" \o Str(i), file |-> file, pre |-> "", access |-> i = 1, user |-> TRUE, line |-> i = 2,
               reqs |-> FALSE, ress |-> i = 1, opts |-> FALSE, reqa |-> FALSE, resa |-> FALSE]
X(t) == CASE t = "init" -> [w |-> 1, id |-> <<>>, name |-> <<"n">>, ver |-> <<>>, opts |-> <<>>]
          [] t = "initr" -> [w |-> 2, id |-> <<>>, name |-> <<>>, ver |-> <<"v">>, opts |-> <<>>]
          [] t = "search" -> [w |-> 3, q |-> "q"]
          [] OTHER -> [w |-> 4, n |-> 1]
Reqs == {None, [t |-> "search", x |-> X("search"), dbs |-> <<"D", "E">>, set |-> "S", syn |-> ""]}
  \cup {[t |-> "init", x |-> X("init"), auth |-> a, user |-> IF a = "idpass" THEN "u" ELSE "", open |-> IF a = "open" THEN "o" ELSE "", vh |-> <<>>]
        : a \in {"none", "idpass", "open"}}
Resps(r) == IF r.t = "init" THEN {[t |-> "initr", x |-> X("initr"), ok |-> TRUE, diag |-> 0, add |-> ""], None}
            ELSE {[t |-> "searchr", x |-> X("searchr"), status |-> 1, hits |-> 2, n |-> 0, next |-> 1, kind |-> k, diag |-> 1, add |-> "a"] : k \in {"none", "nsd"}}
Count(q, ph) == IF <<q, ph>> \in DOMAIN w THEN w[<<q, ph>>] ELSE 0
Init == /\ \E fs \in {<<F(1, "A")>>, <<F(1, "A"), F(2, "A")>>, <<F(1, "A"), F(2, "B")>>} :
             Len(fs) <= Filters /\ s = [LgStart EXCEPT !.p = [filters |-> fs, peers |-> <<>>]]
        /\ n = 0 /\ w = <<>> /\ gone = {}
        /\ said = [k \in Sessions |-> "-"]
Do(e) == IF LgAllowed(s, e) THEN s' = LgApply(s, e) ELSE FALSE
Of(k) == {q \in DOMAIN s.rq : s.rq[q].s = k}
Ask == /\ n < MaxQ
       /\ \E k \in Sessions \ gone, r \in Reqs :
            /\ Of(k) = {}
            /\ Do([op |-> "creq", q |-> n + 1, s |-> k, sid |-> k, oid |-> 0, who |-> "c", ms |-> n, closed |-> r = None, r |-> r])
            /\ gone' = IF r = None THEN gone \cup {k} ELSE gone
            /\ said' = IF r.t = "init" /\ r.auth # "none" THEN [said EXCEPT ![k] = IF r.auth = "open" THEN r.open ELSE r.user] ELSE said
       /\ n' = n + 1 /\ UNCHANGED w
Write == \E q \in DOMAIN s.rq : \E f \in {"A", "B"} :
  LET d == s.rq[q].due IN
  /\ Where(d, f) # {}
  /\ LET h == HeadIn(d, f) IN
     /\ Do([op |-> h[2], f |-> f, x |-> h[3]])
     /\ LET k == <<q, s.rq[q].ph>> IN w' = Put(w, k, Count(q, k[2]) + 1)
  /\ UNCHANGED <<n, said, gone>>
Send == \E q \in DOMAIN s.rq : LET x == s.rq[q] IN
  Do([op |-> "breq", q |-> q, s |-> x.s, closed |-> x.closed, r |-> x.r]) /\ UNCHANGED <<n, w, said, gone>>
Answer == \E q \in DOMAIN s.rq : LET x == s.rq[q] IN
  /\ x.r # None /\ x.ph = "sent"
  /\ \E r \in Resps(x.r) : Do([op |-> "bresp", q |-> q, closed |-> FALSE, ms |-> MaxQ, r |-> r])
  /\ UNCHANGED <<n, w, said, gone>>
Reply == \E q \in DOMAIN s.rq : LET x == s.rq[q] IN
  Do([op |-> "cresp", q |-> q, s |-> x.s, closed |-> IF x.ph = "sent" THEN x.closed ELSE x.shut, r |-> x.out]) /\ UNCHANGED <<n, w, said, gone>>
Rest1 == s.rq = <<>> /\ UNCHANGED vars
Next == Ask \/ Write \/ Send \/ Answer \/ Reply \/ Rest1
Spec == Init /\ [][Next]_vars

Nf == Len(s.p.filters)
(* a request has its entries before it is sent on, and its answer before it is given *)
Told == \A q \in DOMAIN s.rq : LET x == s.rq[q] IN
  x.ph \in {"sent", "answered"} /\ x.r # None => Count(q, "asked") = Nf + 1
Whole == \A q \in 1..n : q \notin DOMAIN s.rq => (Count(q, "asked") # 0 => Count(q, "answered") >= 1)
UserKnown == \A q \in DOMAIN s.rq : s.rq[q].user = said[s.rq[q].s]
Clean == \A k \in gone : Of(k) = {} => k \notin DOMAIN s.users
Once == \A q \in 1..n : Count(q, "asked") <= Nf + 1 /\ Count(q, "answered") <= 2 * Nf + 1
=============================================================================
