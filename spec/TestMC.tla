------------------------------- MODULE TestMC -------------------------------
(* Two clients of backend_test: which answers the specification allows to     *)
(* every request, in every state, and that what it says of them hangs         *)
(* together.                                                                  *)
EXTENDS TestOps
CONSTANTS MaxReq, Nums
VARIABLES st, k
E(n) == [name |-> n, size |-> IF n = "FF1" THEN 1024 ELSE IF n = "FF0" THEN 0 ELSE -1]
Many == {-1, 0, 1, 2, 21, 22, 40, 41, 42, 43, 44}
Syn == {"", "USmarc", "XML", "SUTRS"}
Es == {"", "F", "FF0"}
InitR == {[t |-> "init", ref |-> "i", opts |-> o, pms |-> 1, mrs |-> 1] : o \in {<<"search", "scan">>, <<"search", "named">>}}
SearchR == {[t |-> "search", ref |-> "s", set |-> x, syn |-> y, ssub |-> a, lslb |-> b, mspn |-> m, se |-> E(e), me |-> E("B")] :
            x \in {"default", "A"}, y \in Syn, a \in {0, 42}, b \in {1, 43}, m \in {0, 1, 43}, e \in Es}
PresentR == {[t |-> "present", ref |-> "p", syn |-> y, comp |-> "none", at |-> a, many |-> n, ee |-> E(e)] : y \in Syn, a \in Nums, n \in Nums, e \in Es}
Reqs == InitR \cup SearchR \cup PresentR \cup {[t |-> "close", ref |-> "c"], [t |-> "scan", ref |-> "n"]}
Second == InitR \cup {r \in SearchR : r.set = "A" /\ r.syn = "" /\ r.ssub = 0 /\ r.lslb = 1 /\ r.mspn = 0 /\ r.se.name = ""}
Ans(r, x) ==
  UNION {
   {[t |-> "initr", ref |-> r.ref, ok |-> TRUE, diag |-> 0, opts |-> o, pms |-> 1, mrs |-> 1] : o \in {<<"search">>, <<"search", "named">>, <<"search", "scan">>}},
   {[t |-> "close", ref |-> r.ref, reason |-> c] : c \in {0, 6}},
   IF r.t = "search" THEN
     LET n == InSearch(r)  f == IF n = 0 THEN OkR(1, 0, "", r.se) ELSE Fetch(1, n, r.syn, OfSearch(r))
     IN {[t |-> "searchr", ref |-> r.ref, hits |-> h, n |-> Len(f.recs), next |-> f.next, status |-> IF d = 0 THEN 1 ELSE 0, recs |-> f.recs, diag |-> d, add |-> ad,
          kind |-> IF d # 0 THEN "nsd" ELSE IF f.recs = <<>> THEN "none" ELSE "recs"] : d \in {0, 13, 22, 25, 239}, h \in {0, 42}, ad \in {"", f.add}} ELSE {},
   IF r.t = "present" THEN
     LET f == Fetch(r.at, r.many, r.syn, r.ee)
     IN {[t |-> "presentr", ref |-> r.ref, n |-> r.many, next |-> f.next, pstatus |-> IF d = 0 THEN 0 ELSE 5, recs |-> f.recs, diag |-> d, add |-> f.add] : d \in {0, 13, 25, 239}} ELSE {}}
Init == st = BTStart /\ k = 0
Sess == {1, 2}
Next ==
  \/ \E x \in Sess \ DOMAIN st.cur, r \in Reqs :
        /\ k < MaxReq /\ (x = 2 => r \in Second) /\ k' = k + 1
        /\ st' = BTApply(st, [op |-> "creq", s |-> x, closed |-> FALSE, r |-> r])
  \/ \E x \in DOMAIN st.cur : \E a \in Ans(st.cur[x].r, x), c \in BOOLEAN :
        LET e == [op |-> "cresp", s |-> x, closed |-> c, r |-> a] IN BTAllowed(st, e) /\ st' = BTApply(st, e) /\ k' = k
Spec == Init /\ [][Next]_<<st, k>>
(* each request has one answer, and only one *)
OneAnswer == \A x \in DOMAIN st.cur :
   Cardinality({e \in [op : {"cresp"}, s : {x}, closed : BOOLEAN, r : Ans(st.cur[x].r, x)] : BTAllowed(st, e)}) = 1
(* never more than asked for nor more than there are, each once, in order *)
Whole == \A y \in Syn, a \in Nums, n \in Nums, e \in Es :
   LET f == Fetch(a, n, y, E(e)) IN
   f.diag = 0 => /\ Len(f.recs) = n
                 /\ f.next \in {0, a + n} /\ (f.next = 0 <=> a + n = 43)
                 /\ Format(y, E(e)) = "marc" => \A i \in 1..n : f.recs[i].n = a + i - 1
(* a range can be given iff it is there *)
Ranges == \A a \in Nums, n \in Nums : (Fetch(a, n, "", E("F")).diag = 0) <=> (a >= 1 /\ a <= Hits + 1 /\ n >= 0 /\ \A i \in a..(a + n - 1) : i <= Hits)
=============================================================================
