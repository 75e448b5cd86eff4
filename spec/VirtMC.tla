------------------------------- MODULE VirtMC -------------------------------
(* All behaviours of virt_db's specification for one client, two databases   *)
(* and two result sets, with back ends that do or do not name result sets,   *)
(* refuse, fail or close.                                                    *)
EXTENDS VirtOps
CONSTANT MaxReq
VARIABLES st, k
P == [maps |-> << [pat |-> <<97>>, targets |-> <<[s |-> "t1", dbs |-> <<"X">>]>>, route |-> "main"],
                  [pat |-> <<98>>, targets |-> <<[s |-> "t2", dbs |-> <<>>]>>, route |-> "r1"] >>,
      pass |-> FALSE, names |-> [a |-> <<97>>, b |-> <<98>>, c |-> <<99>>]]
IR == [t |-> "init", ref |-> "", opts |-> <<"search", "present", "named", "scan">>, auth |-> "none", open |-> "", user |-> "",
       pass |-> "", group |-> "", pms |-> 1, mrs |-> 1, vh |-> <<>>]
SR(d, x, rep) == [t |-> "search", ref |-> "", dbs |-> d, set |-> x, rep |-> rep]
PR(x) == [t |-> "present", ref |-> "", set |-> x]
CR == [t |-> "close", ref |-> ""]
IRs(ok, o) == [t |-> "initr", ref |-> "", ok |-> ok, opts |-> o, diag |-> IF ok THEN 0 ELSE 7, add |-> "", pms |-> 1, mrs |-> 1]
SRs(kind) == [t |-> "searchr", ref |-> "", hits |-> 0, status |-> IF kind = "nsd" THEN 0 ELSE 1, kind |-> kind, recs |-> <<>>,
              diag |-> IF kind = "nsd" THEN 9 ELSE 0, add |-> ""]
PRs == [t |-> "presentr", ref |-> "", kind |-> "none", recs |-> <<>>, diag |-> 0, add |-> "", pstatus |-> 0]
Reqs == {IR, CR} \cup {SR(d, x, rep) : d \in {<<"a">>, <<"b">>, <<"c">>, <<"a", "b">>}, x \in {"A", "B"}, rep \in BOOLEAN}
        \cup {PR("A"), PR("B")}
BSess == 2..5
Ev == UNION {
  {[op |-> "creq", s |-> 1, closed |-> FALSE, r |-> r] : r \in Reqs},
  {[op |-> "creq", s |-> 1, closed |-> TRUE, r |-> None]},
  {[op |-> "breq", bk |-> b, s |-> x, closed |-> TRUE, r |-> None] : b \in {"main", "r1"}, x \in DOMAIN st.bs},
  {[op |-> "breq", bk |-> b, s |-> x, closed |-> FALSE, r |-> [IR EXCEPT !.vh = v]] :
       b \in {"main", "r1"}, x \in {y \in BSess : y = Cardinality(DOMAIN st.bs) + 2}, v \in {<<"t1">>, <<"t2">>}},
  {[op |-> "breq", bk |-> b, s |-> x, closed |-> FALSE, r |-> SR(d, z, TRUE)] :
       b \in {"main", "r1"}, x \in DOMAIN st.bs, d \in {<<"X">>, <<"b">>}, z \in {"A", "B", "default"}},
  {[op |-> "breq", bk |-> b, s |-> x, closed |-> FALSE, r |-> PR(z)] : b \in {"main", "r1"}, x \in DOMAIN st.bs, z \in {"A", "B", "default"}},
  {[op |-> "breq", bk |-> b, s |-> x, closed |-> FALSE, r |-> CR] : b \in {"main", "r1"}, x \in DOMAIN st.bs}}
(* what the back end asked last may answer *)
Ans(q) == CASE q.t = "init" -> {IRs(TRUE, <<"search", "named">>), IRs(TRUE, <<"search">>), IRs(FALSE, <<>>), None}
            [] q.t = "search" -> {SRs("none"), SRs("nsd"), None}
            [] q.t = "present" -> {PRs}
            [] q.t = "close" -> {[t |-> "close", ref |-> "", reason |-> 0]}
            [] OTHER -> {}
CEv == UNION {
  {[op |-> "cresp", s |-> 1, closed |-> c, r |-> r] : c \in BOOLEAN,
     r \in {None, st.cur.last, IRs(TRUE, <<"search", "present", "named", "scan">>), [t |-> "close", ref |-> "", reason |-> 6],
            [t |-> "close", ref |-> "", reason |-> 0]}
           \cup {[SRs("nsd") EXCEPT !.diag = d, !.add = a] : d \in {21, 23, 235, 236, 7}, a \in {"", "a", "b", "c"}}
           \cup {[PRs EXCEPT !.kind = "nsd", !.diag = 30, !.add = a, !.pstatus = 5] : a \in {"A", "B"}}}}
VARIABLE asked          \* request at a back end not answered yet: [s, r] or None
Init == st = [VStart EXCEPT !.p = P] /\ k = 0 /\ asked = [s |-> 0, r |-> None]
Next ==
  IF asked.s # 0
  THEN \E a \in Ans(asked.r), c \in BOOLEAN :
         /\ st' = VApply(st, [op |-> "bresp", bk |-> "x", s |-> asked.s, closed |-> (c \/ asked.r.t = "close"), r |-> a])
         /\ asked' = [s |-> 0, r |-> None] /\ UNCHANGED k
  ELSE \/ \E e \in Ev : /\ (e.op = "creq" => k < MaxReq /\ (k = 0 => e.r.t = "init"))
                        /\ VAllowed(st, e)
                        /\ st' = VApply(st, e)
                        /\ k' = IF e.op = "creq" THEN k + 1 ELSE k
                        /\ asked' = IF e.op = "breq" /\ e.r.t # "none" THEN [s |-> e.s, r |-> e.r] ELSE asked
       \/ \E e \in CEv : /\ st.cur.on /\ VAllowed(st, e)
                         /\ st' = VApply(st, e)
                         /\ UNCHANGED <<k, asked>>
Spec == Init /\ [][Next]_<<st, k, asked>>
(* every result set the client was told about is still held, for it, by an    *)
(* open session of its own, and no two of its sets are the same one           *)
Held == \A c \in DOMAIN st.cl : st.cl[c].gone \/ \A x \in DOMAIN st.cl[c].sets :
          \/ st.cur.on /\ (st.cur.lastclosed \/ st.cur.r.t \in {"close", "init", "none"} \/ (st.cur.r.t = "search" /\ st.cur.r.set = x))
          \/ \E b \in DOMAIN st.bs : st.bs[b].owner = c /\ st.bs[b].open
                /\ \E y \in DOMAIN st.bs[b].sets : st.bs[b].sets[y] = st.cl[c].sets[x]
Distinct == \A c \in DOMAIN st.cl : \A x, y \in DOMAIN st.cl[c].sets :
               x # y => st.cl[c].sets[x] # st.cl[c].sets[y]
(* a request is always answerable *)
Stuck == st.cur.on /\ asked.s = 0 => ENABLED Next
=============================================================================
