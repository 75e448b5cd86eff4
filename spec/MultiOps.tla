------------------------------ MODULE MultiOps ------------------------------
(* The multi filter: one client session multiplexed over one back end        *)
(* session per virtual host, answers merged.                                 *)
(* Back ends are asked concurrently: their events come in any order.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == (k :> v) @@ f
Rng(q) == {q[i] : i \in 1..Len(q)}
None == [t |-> "none"]
Min(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))

RECURSIVE Glob(_, _, _, _)
Glob(p, i, x, j) ==
  IF i > Len(p) THEN j > Len(x)
  ELSE IF p[i] = 42 THEN \E k \in j..(Len(x) + 1) : Glob(p, i + 1, x, k)
  ELSE j <= Len(x) /\ (p[i] = 63 \/ p[i] = x[j]) /\ Glob(p, i + 1, x, j + 1)
(* the target element of a virtual host: the first that matches *)
MapOf(p, v) ==
  LET M == {i \in 1..Len(p.maps) : Glob(p.maps[i].pat, 1, p.names[v], 1)} IN
  IF M = {} THEN [route |-> "main", auth |-> ""] ELSE p.maps[MinOf(M)]

(* ------------------- the order of merged result sets --------------------- *)
(* counts of the back ends -> the sequence of <<back end, position>>          *)
RoundRobin(cs) ==
  LET m == IF cs = <<>> THEN 0 ELSE MaxOf(Rng(cs))
      Row(k) == LET R == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : cs[i] >= k)
                IN [j \in 1..Len(R) |-> <<R[j], k>>]
  IN Flat([k \in 1..m |-> Row(k)])
ServeOrder(cs) == Flat([i \in 1..Len(cs) |-> [k \in 1..cs[i] |-> <<i, k>>]])
Merged(p, cs) == IF p.merge = "rr" THEN RoundRobin(cs) ELSE ServeOrder(cs)
(* what a present of the merged set asks for *)
Jobs(p, cs, start, num) ==
  IF start < 1 \/ num < 1 THEN <<>>
  ELSE LET M == Merged(p, cs) IN SubSeq(M, start, Min(start + num - 1, Len(M)))
Part(jobs, i) == {jobs[j][2] : j \in {j \in 1..Len(jobs) : jobs[j][1] = i}}

Piggy(r, n) == IF n <= r.ssub THEN [n |-> n, esn |-> r.sesn]
               ELSE IF n >= r.lslb THEN [n |-> 0, esn |-> ""]
               ELSE [n |-> Min(r.mspn, n), esn |-> r.mesn]

(* ------------------------------- state ----------------------------------- *)
(* b: the back end sessions of a client, in the order of its virtual hosts    *)
Idle == [on |-> FALSE, s |-> 0, r |-> None, closed |-> FALSE,
         sent |-> {}, ans |-> <<>>,              \* phase 1
         sent2 |-> {}, ans2 |-> <<>>,            \* records of a search
         ended |-> {}, pass |-> 0, last |-> None, lastclosed |-> FALSE]
MStart == [p |-> [maps |-> <<>>], cl |-> <<>>, owner |-> <<>>, cur |-> Idle]
NewClient == [multi |-> FALSE, b |-> <<>>, sets |-> <<>>, gone |-> FALSE]
Cl(s, c) == IF c \in DOMAIN s.cl THEN s.cl[c] ELSE NewClient
Cur(s) == Cl(s, s.cur.s)
IsInit(s) == s.cur.r.t = "init" /\ ~Cur(s).multi /\ s.cur.r.vh # <<>>
Passing(s) == ~Cur(s).multi /\ ~IsInit(s)
(* index of a back end session among the client's, 0 if none *)
Idx(c, x) == LET I == {i \in 1..Len(c.b) : c.b[i].s = x} IN IF I = {} THEN 0 ELSE MinOf(I)
(* the back ends in use, in order *)
Live(c) == SelectSeq([i \in 1..Len(c.b) |-> i], LAMBDA i : ~c.b[i].dropped)
Must(c) == {i \in 1..Len(c.b) : ~c.b[i].dropped /\ ~c.b[i].closed}

(* ---------------------------- requests sent ------------------------------ *)
InitOk(s, e) ==
  LET r == s.cur.r  m == MapOf(s.p, e.r.vh[1]) IN
  /\ IsInit(s) /\ Len(e.r.vh) = 1 /\ e.r.vh[1] \in Rng(r.vh)
  /\ \A i \in s.cur.sent : Cur(s).b[i].vh # e.r.vh[1]
  /\ e.s \notin DOMAIN s.owner /\ e.s \notin DOMAIN s.cl /\ e.s # s.cur.s
  /\ e.bk = m.route
  /\ IF m.auth # "" THEN e.r.auth = "open" /\ e.r.open = m.auth
     ELSE e.r.auth = r.auth /\ e.r.open = r.open /\ e.r.user = r.user /\ e.r.pass = r.pass /\ e.r.group = r.group
  /\ e.r.pms = r.pms /\ e.r.mrs = r.mrs /\ e.r.oi = r.oi
  /\ {"search", "present", "named", "scan"} \subseteq Rng(e.r.opts)

ZDbs(s, v, r) == IF s.p.zdbs[v] = <<>> THEN r.dbs ELSE s.p.zdbs[v]
Counts(c, x) == [j \in 1..Len(c.sets[x]) |-> c.sets[x][j].n]
SetJobs(s, x, start, num) == Jobs(s.p, Counts(Cur(s), x), start, num)
(* the part of a present for back end i: {} or the positions *)
PartOf(c, x, jobs, i) ==
  LET J == {j \in 1..Len(c.sets[x]) : c.sets[x][j].b = i} IN
  IF J = {} THEN {} ELSE Part(jobs, MinOf(J))
(* a present request to back end i for the positions P *)
PresIs(e, r, P) == e.r = [r EXCEPT !.start = MinOf(P), !.num = MaxOf(P) - MinOf(P) + 1]

(* after a search: the merged set and whether records are to be had *)
Hit(s) == LET c == Cur(s)
              L == SelectSeq([i \in 1..Len(c.b) |-> i], LAMBDA i : i \in DOMAIN s.cur.ans /\ s.cur.ans[i].r.t = "searchr")
          IN [j \in 1..Len(L) |-> [b |-> L[j], n |-> s.cur.ans[L[j]].r.hits]]
Answers(ans, t) == {i \in DOMAIN ans : ans[i].r.t = t}
Diags(ans, t) == {i \in Answers(ans, t) : ans[i].r.kind \in {"nsd", "mnsd"}}
Succ(ans, t) == Answers(ans, t) \ Diags(ans, t)
Closed(ans) == {i \in DOMAIN ans : ans[i].closed}
SearchDone(s) == s.cur.sent = DOMAIN s.cur.ans /\ Must(Cur(s)) \subseteq s.cur.sent
SearchClosed(s) == Closed(s.cur.ans) # {} /\ (Succ(s.cur.ans, "searchr") = {} \/ ~s.p.hideunav)
HitCounts(s) == [j \in 1..Len(Hit(s)) |-> Hit(s)[j].n]
PiggyOf(s) ==
  IF SearchClosed(s) \/ Diags(s.cur.ans, "searchr") # {} THEN [n |-> 0, esn |-> ""]
  ELSE Piggy(s.cur.r, Sum(HitCounts(s)))
PiggyJobs(s) == Jobs(s.p, HitCounts(s), 1, PiggyOf(s).n)
PiggyPart(s, i) == LET J == {j \in 1..Len(Hit(s)) : Hit(s)[j].b = i} IN
                   IF J = {} THEN {} ELSE Part(PiggyJobs(s), MinOf(J))

BreqOk(s, e) ==
  LET c == Cur(s)  r == s.cur.r  i == Idx(c, e.s) IN
  IF e.closed /\ e.r.t = "none"
  THEN \/ e.s \in DOMAIN s.cl \/ e.s = s.cur.s             \* of a session that is not multiplexed
       \/ e.s \in DOMAIN s.owner /\ (Cl(s, s.owner[e.s]).gone \/ (s.cur.on /\ s.owner[e.s] = s.cur.s))
  ELSE /\ s.cur.on
       /\ IF Passing(s) THEN ~e.closed /\ e.s = s.cur.s /\ e.r = r /\ e.bk = "main" /\ s.cur.pass = 0
          ELSE IF e.r.t = "init" THEN ~e.closed /\ InitOk(s, e)
          ELSE /\ i # 0 /\ ~c.b[i].dropped /\ e.bk = c.b[i].bk
               /\ CASE r.t = "search" /\ e.r.t = "search" ->
                         /\ i \notin s.cur.sent
                         /\ e.r = [r EXCEPT !.ssub = 0, !.lslb = 1, !.mspn = 0, !.dbs = ZDbs(s, c.b[i].vh, r)]
                    [] r.t = "search" /\ e.r.t = "present" ->
                         /\ SearchDone(s) /\ i \notin s.cur.sent2
                         /\ PiggyPart(s, i) # {}
                         /\ e.r.set = r.set /\ e.r.syn = r.syn /\ e.r.esn = PiggyOf(s).esn
                         /\ PresIs(e, e.r, PiggyPart(s, i))
                    [] r.t = "present" /\ e.r.t = "present" ->
                         /\ i \notin s.cur.sent
                         /\ r.set \in DOMAIN c.sets
                         /\ LET P == PartOf(c, r.set, SetJobs(s, r.set, r.start, r.num), i) IN
                            P # {} /\ PresIs(e, r, P)
                    [] r.t = "scan" /\ e.r.t = "scan" ->
                         i \notin s.cur.sent /\ e.r = [r EXCEPT !.dbs = ZDbs(s, c.b[i].vh, r)]
                    [] r.t = "close" /\ e.r.t = "close" -> i \notin s.cur.sent /\ e.r = r
                    [] OTHER -> FALSE

(* ------------------------------- answers --------------------------------- *)
(* diagnostics of several back ends: the first, as one or as a list *)
DiagOk(r, ans, D) ==
  LET i == MinOf(D) IN
  /\ r.diag = ans[i].r.diag /\ r.add = ans[i].r.add
  /\ (r.kind = "mnsd") = (Cardinality(D) > 1 \/ \E j \in D : ans[j].r.kind = "mnsd")
  /\ r.kind \in {"nsd", "mnsd"}

(* the merged records of a present: b maps the part's number to the back end   *)
RECURSIVE MergeRecs(_, _, _, _, _)
MergeRecs(c, set, jobs, ans, k) ==
  IF k > Len(jobs) THEN <<>>
  ELSE LET j == jobs[k]
           i == set[j[1]].b
           off == j[2] - MinOf(Part(jobs, j[1])) + 1
           a == IF i \in DOMAIN ans THEN ans[i].r ELSE None
           have == a.t = "presentr" /\ a.kind = "recs" /\ off <= Len(a.recs)
       IN (IF have THEN <<[a.recs[off] EXCEPT !.db = c.b[i].vh]>> ELSE <<>>) \o MergeRecs(c, set, jobs, ans, k + 1)

PresOutcome(s, set, jobs, ans) ==
  LET S == Succ(ans, "presentr")  D == Diags(ans, "presentr") IN
  IF Closed(ans) # {} /\ (S = {} \/ ~s.p.hideerr) THEN "closed"
  ELSE IF D # {} /\ (S = {} \/ ~s.p.hideerr) THEN "diag" ELSE "recs"

Parts(set, jobs) == {set[j].b : j \in {j \in 1..Len(set) : Part(jobs, j) # {}}}

PresentAns(s, e) ==
  LET c == Cur(s)  r == s.cur.r IN
  IF r.set \notin DOMAIN c.sets
  THEN s.cur.sent = {} /\ ~e.closed /\ e.r.t = "presentr" /\ e.r.ref = r.ref /\ e.r.diag = 30 /\ e.r.add = r.set /\ e.r.pstatus = 5
  ELSE LET set == c.sets[r.set]
           total == Sum(Counts(c, r.set))
           jobs == SetJobs(s, r.set, r.start, r.num)
           bad == r.num < 0 \/ r.start < 1 \/ r.start + r.num - 1 > total
           o == PresOutcome(s, set, jobs, s.cur.ans)
           range == e.r.t = "presentr" /\ e.r.ref = r.ref /\ e.r.diag = 13 /\ e.r.pstatus = 5 /\ ~e.closed
       IN /\ s.cur.sent = DOMAIN s.cur.ans
          /\ \/ bad /\ range
             \/ /\ r.num = 0 /\ ~e.closed
                /\ e.r.t = "presentr" /\ e.r.ref = r.ref /\ e.r.recs = <<>> /\ e.r.diag = 0
             \/ /\ r.num # 0
                /\ Parts(set, jobs) \cap Must(c) \subseteq s.cur.sent
                /\ CASE o = "closed" -> e.closed /\ \E i \in Closed(s.cur.ans) : e.r = s.cur.ans[i].r
                     [] o = "diag" -> ~e.closed /\ e.r.t = "presentr" /\ e.r.ref = r.ref
                                      /\ DiagOk(e.r, s.cur.ans, Diags(s.cur.ans, "presentr"))
                     [] OTHER -> /\ ~bad /\ ~e.closed
                                 /\ e.r.t = "presentr" /\ e.r.ref = r.ref /\ e.r.diag = 0
                                 /\ e.r.recs = MergeRecs(c, set, jobs, s.cur.ans, 1)
                                 /\ e.r.n = Len(e.r.recs)

SearchAns(s, e) ==
  LET c == Cur(s)  r == s.cur.r  ans == s.cur.ans
      D == Diags(ans, "searchr")
      base == e.r.t = "searchr" /\ e.r.ref = r.ref /\ e.r.hits = Sum(HitCounts(s))
  IN /\ SearchDone(s) /\ s.cur.sent2 = DOMAIN s.cur.ans2
     /\ IF SearchClosed(s) THEN e.closed /\ \E i \in Closed(ans) : e.r = ans[i].r
        ELSE IF D # {} /\ (Succ(ans, "searchr") = {} \/ ~s.p.hideerr)
        THEN ~e.closed /\ base /\ DiagOk(e.r, ans, D)
        ELSE IF PiggyOf(s).n <= 0 THEN ~e.closed /\ base /\ e.r.diag = 0 /\ e.r.recs = <<>>
        ELSE LET set == Hit(s)  jobs == PiggyJobs(s)  o == PresOutcome(s, set, jobs, s.cur.ans2) IN
             /\ Parts(set, jobs) \cap Must(c) \subseteq s.cur.sent2
             /\ CASE o = "closed" -> e.closed /\ (e.r.t = "searchr" => base)
                                     /\ \E i \in Closed(s.cur.ans2) : e.r = s.cur.ans2[i].r \/ e.r.t = "searchr"
                  [] o = "diag" -> ~e.closed /\ base /\ DiagOk(e.r, s.cur.ans2, Diags(s.cur.ans2, "presentr"))
                  [] OTHER -> /\ ~e.closed /\ base /\ e.r.diag = 0
                              /\ e.r.recs = MergeRecs(c, set, jobs, s.cur.ans2, 1)
                              /\ e.r.n = Len(e.r.recs)

(* scan: terms before the position, closest first, and from it on            *)
RECURSIVE Ins(_, _, _, _)
Ins(p, q, x, up) ==
  IF q = <<>> THEN <<x>>
  ELSE IF q[1].term = x.term THEN <<[q[1] EXCEPT !.n = @ + x.n]>> \o Tail(q)
  ELSE IF (up /\ p.rank[x.term] < p.rank[q[1].term]) \/ (~up /\ p.rank[x.term] > p.rank[q[1].term]) THEN <<x>> \o q
  ELSE <<q[1]>> \o Ins(p, Tail(q), x, up)
RECURSIVE InsAll(_, _, _, _)
InsAll(p, q, xs, up) ==
  IF xs = <<>> THEN q
  ELSE InsAll(p, IF xs[1].k = "term" /\ xs[1].term # ""
                 THEN Ins(p, q, [term |-> xs[1].term, n |-> IF xs[1].n < 0 THEN 0 ELSE xs[1].n], up) ELSE q, Tail(xs), up)
Split(a, dflt) ==
  LET pos == IF a.pos >= 0 THEN a.pos ELSE dflt
      k == Min(Len(a.entries), IF pos < 1 THEN 0 ELSE pos - 1)
  IN [before |-> SubSeq(a.entries, 1, k), after |-> SubSeq(a.entries, k + 1, Len(a.entries))]
RECURSIVE Collect(_, _, _, _, _)
Collect(p, as, dflt, before, after) ==
  IF as = <<>> THEN [before |-> before, after |-> after]
  ELSE LET sp == Split(as[1], dflt) IN
       Collect(p, Tail(as), dflt, InsAll(p, before, sp.before, FALSE), InsAll(p, after, sp.after, TRUE))
ScanEntries(p, as, num, pos0) ==
  LET pos == IF pos0 < 0 THEN 1 ELSE pos0
      L == Collect(p, as, pos, <<>>, <<>>)
      nb == Min(Min(Len(L.before), IF pos < 1 THEN 0 ELSE pos - 1), num)
      na == Min(Len(L.after), num - nb)
  IN [before |-> nb,
      e |-> [i \in 1..nb |-> L.before[nb + 1 - i]] \o SubSeq(L.after, 1, na)]
ScanAns(s, e) ==
  LET c == Cur(s)  r == s.cur.r  ans == s.cur.ans
      L == SelectSeq([i \in 1..Len(c.b) |-> i], LAMBDA i : i \in DOMAIN ans)
      Bad == {i \in DOMAIN ans : ans[i].r.t # "scanr" \/ ans[i].r.diag # 0}
  IN /\ s.cur.sent = DOMAIN ans /\ Must(c) \subseteq s.cur.sent
     /\ IF Bad # {}
        THEN LET i == MinOf(Bad) IN
             /\ (e.closed => Closed(ans) # {}) /\ (ans[i].closed => e.closed)
             /\ IF ans[i].r.t # "scanr" THEN e.r = ans[i].r
                ELSE e.r.t = "scanr" /\ e.r.ref = r.ref /\ e.r.diag = ans[i].r.diag /\ e.r.add = ans[i].r.add
        ELSE LET x == ScanEntries(s.p, [j \in 1..Len(L) |-> ans[L[j]].r], r.num, r.pos) IN
             /\ e.closed = (Closed(ans) # {})
             /\ e.r.t = "scanr" /\ e.r.ref = r.ref /\ e.r.diag = 0
             /\ [i \in 1..Len(e.r.entries) |-> [term |-> e.r.entries[i].term, n |-> e.r.entries[i].n]] = x.e
             /\ e.r.n = Len(x.e)
             /\ (r.pos >= 1 => e.r.pos = x.before + 1)

InitGood(ans, i) == ans[i].r.t = "initr" /\ ~ans[i].closed /\ ans[i].r.ok
Four == {"search", "present", "named", "scan"}
InitAns(s, e) ==
  LET r == s.cur.r  ans == s.cur.ans
      G == {i \in DOMAIN ans : InitGood(ans, i)}
      ok == IF s.p.hideunav THEN G # {} ELSE G = DOMAIN ans
      A == {i \in DOMAIN ans : ans[i].r.t = "initr"}
      Opts(I) == {o \in Four : \A i \in I : o \in Rng(ans[i].r.opts)}
      rej == {i \in A : ~ans[i].closed /\ ~ans[i].r.ok /\ ans[i].r.diag # 0}
  IN /\ s.cur.sent = 1..Len(r.vh) /\ s.cur.sent = DOMAIN ans
     /\ e.r.t = "initr" /\ e.r.ref = r.ref
     /\ e.r.ok = ok /\ e.closed = ~ok
     /\ (ok => /\ Rng(e.r.opts) \subseteq Opts(G) /\ Opts(A) \subseteq Rng(e.r.opts)
               /\ e.r.pms = MinOf({r.pms} \cup {ans[i].r.pms : i \in G})
               /\ e.r.mrs = MinOf({r.mrs} \cup {ans[i].r.mrs : i \in G}))
     /\ (~ok => e.r.diag = IF rej = {} THEN 0 ELSE ans[MinOf(rej)].r.diag)

CloseIs(r, ref, reason) == r.t = "close" /\ r.ref = ref /\ r.reason = reason
CrespOk(s, e) ==
  LET r == s.cur.r  c == Cur(s)  q == s.cur IN
  /\ e.s = q.s
  /\ IF q.closed /\ r.t = "none" THEN e.r.t = "none" /\ e.closed
     ELSE IF Passing(s) THEN q.pass # 0 /\ e.r = q.last /\ e.closed = q.lastclosed
     ELSE CASE IsInit(s) -> InitAns(s, e)
            [] r.t = "init" -> CloseIs(e.r, r.ref, 6) /\ e.closed
            [] r.t = "search" -> SearchAns(s, e)
            [] r.t = "present" -> PresentAns(s, e)
            [] r.t = "scan" -> ScanAns(s, e)
            [] r.t = "close" ->
                 /\ q.sent = DOMAIN q.ans /\ Must(c) \subseteq q.sent
                 /\ e.closed = (Closed(q.ans) # {})
                 /\ \E i \in DOMAIN q.ans : e.r = q.ans[i].r
            [] OTHER -> CloseIs(e.r, r.ref, 6) /\ e.closed
  (* back ends are given up only with the session (those that do not work may *)
  (* be given up when the others go on); with the session all of them are     *)
  /\ IF e.closed THEN \A i \in 1..Len(c.b) : c.b[i].closed \/ c.b[i].ended \/ c.b[i].dropped
     ELSE \A i \in q.ended : IsInit(s) /\ ~InitGood(q.ans, i)

MAllowed(s, e) ==
  CASE e.op = "config" -> e.ok
    [] e.op = "params" -> TRUE
    [] e.op = "creq" -> ~s.cur.on /\ ~Cl(s, e.s).gone
    [] e.op = "breq" -> BreqOk(s, e)
    [] e.op = "bresp" -> TRUE
    [] e.op = "cresp" -> s.cur.on /\ CrespOk(s, e)
    [] e.op = "fin" -> ~s.cur.on
    [] OTHER -> FALSE

(* ------------------------------ next state -------------------------------- *)
Breq(s, e) ==
  LET k == s.cur.s  c == Cur(s)  i == Idx(c, e.s) IN
  IF e.closed /\ e.r.t = "none"
  THEN IF s.cur.on /\ i # 0 THEN [s EXCEPT !.cl[k].b[i].ended = TRUE, !.cur.ended = @ \cup {i}] ELSE s
  ELSE IF Passing(s) THEN [s EXCEPT !.cur.pass = e.s]
  ELSE IF e.r.t = "init"
  THEN LET n == CHOOSE j \in 1..Len(c.b) : c.b[j].vh = e.r.vh[1] IN
       [s EXCEPT !.cl[k].b[n].s = e.s, !.cl[k].b[n].bk = e.bk, !.owner = Put(@, e.s, k), !.cur.sent = @ \cup {n}]
  ELSE IF s.cur.r.t = "search" /\ e.r.t = "present" THEN [s EXCEPT !.cur.sent2 = @ \cup {i}]
  ELSE [s EXCEPT !.cur.sent = @ \cup {i}]
Bresp(s, e) ==
  LET k == s.cur.s  i == IF s.cur.on THEN Idx(Cur(s), e.s) ELSE 0 IN
  IF i = 0 THEN [s EXCEPT !.cur.last = e.r, !.cur.lastclosed = e.closed]
  ELSE LET s2 == [s EXCEPT !.cl[k].b[i].closed = e.closed] IN
       IF i \in s.cur.sent2 THEN [s2 EXCEPT !.cur.ans2 = Put(@, i, [r |-> e.r, closed |-> e.closed])]
       ELSE [s2 EXCEPT !.cur.ans = Put(@, i, [r |-> e.r, closed |-> e.closed])]
Cresp(s, e) ==
  LET k == s.cur.s  r == s.cur.r  c == Cur(s)
      c2 == CASE IsInit(s) -> [c EXCEPT !.multi = TRUE,
                                        !.b = [i \in 1..Len(@) |-> [@[i] EXCEPT !.dropped = ~InitGood(s.cur.ans, i)]]]
              [] r.t = "search" /\ c.multi /\ ~SearchClosed(s) -> [c EXCEPT !.sets = Put(@, r.set, Hit(s))]
              [] OTHER -> c
  IN [s EXCEPT !.cl = Put(@, k, [c2 EXCEPT !.gone = e.closed]), !.cur = Idle]

MApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" ->
         LET c == Cl(s, e.s)
             c2 == IF e.r.t = "init" /\ ~c.multi
                   THEN [c EXCEPT !.b = [i \in 1..Len(e.r.vh) |->
                           [s |-> 0, bk |-> "", vh |-> e.r.vh[i], closed |-> FALSE, dropped |-> FALSE, ended |-> FALSE]]]
                   ELSE c
         IN [s EXCEPT !.cl = Put(@, e.s, c2), !.cur = [Idle EXCEPT !.on = TRUE, !.s = e.s, !.r = e.r, !.closed = e.closed]]
    [] e.op = "breq" -> Breq(s, e)
    [] e.op = "bresp" -> Bresp(s, e)
    [] e.op = "cresp" -> Cresp(s, e)
    [] OTHER -> s
=============================================================================
