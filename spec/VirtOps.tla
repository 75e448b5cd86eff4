------------------------------ MODULE VirtOps ------------------------------
(* The virt_db filter: virtual databases mapped to targets and routes, and   *)
(* the client's result sets living in back end sessions.                     *)
(* Events are what the client and the back ends see: creq/cresp (request and *)
(* answer of a client session), breq/bresp (of a back end session).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Rng(q) == {q[i] : i \in 1..Len(q)}
None == [t |-> "none"]

(* ---- names: sequences of character codes, lower case ---- *)
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowS(q) == [i \in 1..Len(q) |-> Low(q[i])]
RECURSIVE Glob(_, _, _, _)
Glob(p, i, x, j) ==
  IF i > Len(p) THEN j > Len(x)
  ELSE IF p[i] = 42 THEN \E k \in j..(Len(x) + 1) : Glob(p, i + 1, x, k)
  ELSE j <= Len(x) /\ (p[i] = 63 \/ p[i] = x[j]) /\ Glob(p, i + 1, x, j + 1)
NameOf(p, d) == LowS(p.names[d])
SameDbs(p, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NameOf(p, a[i]) = NameOf(p, b[i])

(* ---- the virtual database of a name: first match, 0 if none ---- *)
MapOf(p, d) ==
  LET M == {i \in 1..Len(p.maps) : Glob(LowS(p.maps[i].pat), 1, NameOf(p, d), 1)}
  IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : i <= j

(* error of a database list: 0, 235 (with the name), 23 *)
RECURSIVE DbErr(_, _, _, _)
DbErr(p, dbs, i, route) ==
  IF i > Len(dbs) THEN [code |-> 0, add |-> ""]
  ELSE LET m == MapOf(p, dbs[i]) IN
       IF m = 0 THEN [code |-> 235, add |-> dbs[i]]
       ELSE IF i > 1 /\ p.maps[m].route # route THEN [code |-> 23, add |-> ""]
       ELSE DbErr(p, dbs, i + 1, p.maps[m].route)
RECURSIVE Dedup(_, _)
Dedup(q, seen) == IF q = <<>> THEN <<>>
                  ELSE IF q[1].s \in seen THEN Dedup(Tail(q), seen)
                  ELSE <<q[1]>> \o Dedup(Tail(q), seen \cup {q[1].s})
RECURSIVE AllTargets(_, _, _)
AllTargets(p, dbs, i) == IF i > Len(dbs) THEN <<>>
                         ELSE p.maps[MapOf(p, dbs[i])].targets \o AllTargets(p, dbs, i + 1)
Targets(p, dbs) == Dedup(AllTargets(p, dbs, 1), {})
RouteOf(p, dbs) == p.maps[MapOf(p, dbs[1])].route
Strs(ts) == [i \in 1..Len(ts) |-> ts[i].s]

(* ------------------------------- state ----------------------------------- *)
Idle == [on |-> FALSE, s |-> 0, r |-> None, closed |-> FALSE, last |-> None, lastclosed |-> FALSE,
         sent |-> 0, failed |-> 0, initr |-> None, id |-> 0, relayed |-> {}]
VStart == [p |-> [maps |-> <<>>, pass |-> FALSE, names |-> <<>>],
           cl |-> <<>>, bs |-> <<>>, cur |-> Idle, n |-> 0]

NewClient == [virt |-> FALSE, init |-> None, sets |-> <<>>, gone |-> FALSE]
Cl(s, c) == IF c \in DOMAIN s.cl THEN s.cl[c] ELSE NewClient
Cur(s) == Cl(s, s.cur.s)
(* packages of a session that is not virtual pass through *)
Passing(s) == /\ ~Cur(s).virt
              /\ \/ s.cur.r.t # "init"
                 \/ s.p.pass /\ s.cur.r.vh # <<>>
Mine(s, c) == {b \in DOMAIN s.bs : s.bs[b].owner = c /\ s.bs[b].open}

(* ------------------------- requests to back ends -------------------------- *)
WantDbs(p, r) == LET t == Targets(p, r.dbs)[1] IN IF t.dbs = <<>> THEN r.dbs ELSE t.dbs
HasTargets(p, r) == Targets(p, r.dbs) # <<>>

InitOk(s, e) ==
  LET r == s.cur.r  i == Cur(s).init IN
  /\ r.t \in {"search", "scan"}
  /\ s.cur.sent = 0 /\ s.cur.failed = 0 /\ s.cur.initr.t = "none"
  /\ e.s \notin DOMAIN s.bs /\ e.s # s.cur.s
  /\ ~(r.t = "search" /\ r.set \in DOMAIN Cur(s).sets /\ ~r.rep)
  /\ DbErr(s.p, r.dbs, 1, "").code = 0
  /\ e.bk = RouteOf(s.p, r.dbs)
  /\ e.r.vh = Strs(Targets(s.p, r.dbs))
  /\ e.r.auth = i.auth /\ e.r.open = i.open /\ e.r.user = i.user /\ e.r.pass = i.pass /\ e.r.group = i.group
  /\ e.r.pms = i.pms /\ e.r.mrs = i.mrs
  /\ {"search", "present", "named", "scan"} \subseteq Rng(e.r.opts)

SearchOk(s, e) ==
  LET r == s.cur.r  b == s.bs[e.s] IN
  /\ r.t = "search" /\ s.cur.sent = 0
  /\ ~(r.set \in DOMAIN Cur(s).sets /\ ~r.rep)
  /\ SameDbs(s.p, b.fdbs, r.dbs)
  /\ e.r = [r EXCEPT !.set = e.r.set, !.dbs = IF HasTargets(s.p, r) THEN WantDbs(s.p, r) ELSE r.dbs, !.rep = TRUE]
  /\ e.r.set = IF b.named THEN r.set ELSE "default"
  (* no other result set of the client may be lost *)
  /\ \A x \in DOMAIN Cur(s).sets \ {r.set} :
        ~(e.r.set \in DOMAIN b.sets /\ b.sets[e.r.set] = Cur(s).sets[x])

PresentOk(s, e) ==
  LET r == s.cur.r  b == s.bs[e.s] IN
  /\ r.t = "present" /\ s.cur.sent = 0
  /\ r.set \in DOMAIN Cur(s).sets
  /\ e.r = [r EXCEPT !.set = e.r.set]
  /\ e.r.set \in DOMAIN b.sets /\ b.sets[e.r.set] = Cur(s).sets[r.set]

ScanOk(s, e) ==
  LET r == s.cur.r  b == s.bs[e.s] IN
  /\ r.t = "scan" /\ s.cur.sent = 0
  /\ SameDbs(s.p, b.fdbs, r.dbs)
  /\ e.r = [r EXCEPT !.dbs = IF HasTargets(s.p, r) THEN WantDbs(s.p, r) ELSE r.dbs]

(* a back end session is given up only when it holds nothing the client can   *)
(* still ask for, or the client itself goes                                   *)
EndOk(s, e) ==
  \/ e.s \in DOMAIN s.cl \/ e.s = s.cur.s
  \/ /\ e.s \in DOMAIN s.bs
     /\ LET b == s.bs[e.s] IN
        \/ s.cur.on /\ s.cur.s = b.owner
           /\ (s.cur.closed \/ s.cur.lastclosed \/ s.cur.failed = e.s
               \/ s.cur.r.t \notin {"search", "present", "scan"})
        \/ Cl(s, b.owner).gone
        \/ /\ ~(s.cur.on /\ s.cur.sent = e.s)
           /\ \A x \in DOMAIN Cl(s, b.owner).sets : Cl(s, b.owner).sets[x] \notin {b.sets[y] : y \in DOMAIN b.sets}

BreqOk(s, e) ==
  IF e.closed /\ e.r.t = "none" THEN EndOk(s, e)
  ELSE /\ s.cur.on /\ ~e.closed
       /\ IF Passing(s) THEN e.s = s.cur.s /\ e.r = s.cur.r /\ e.bk = "main" /\ s.cur.sent = 0
          ELSE IF e.r.t = "init" THEN InitOk(s, e)
          ELSE /\ e.s \in Mine(s, s.cur.s)
               /\ e.bk = s.bs[e.s].bk
               /\ CASE e.r.t = "search" -> SearchOk(s, e)
                    [] e.r.t = "present" -> PresentOk(s, e)
                    [] e.r.t = "scan" -> ScanOk(s, e)
                    [] e.r.t = "close" -> s.cur.r = e.r /\ e.s \notin s.cur.relayed
                    [] OTHER -> FALSE

(* ------------------------------- answers --------------------------------- *)
(* the database name of a record is one the client knows *)
DbName(p, fdbs, d) ==
  IF d = "" THEN ""
  ELSE LET H == {i \in 1..Len(fdbs) : MapOf(p, fdbs[i]) # 0 /\
                   \E k \in 1..Len(p.maps[MapOf(p, fdbs[i])].targets) : p.maps[MapOf(p, fdbs[i])].targets[k].s = d}
       IN IF H = {} THEN fdbs[1] ELSE fdbs[CHOOSE i \in H : \A j \in H : i <= j]
FixRecs(p, fdbs, r) ==
  [r EXCEPT !.recs = [i \in 1..Len(r.recs) |-> [r.recs[i] EXCEPT !.db = DbName(p, fdbs, @)]]]
Fixed(s, r) == IF r.t \in {"searchr", "presentr"} THEN FixRecs(s.p, s.bs[s.cur.sent].fdbs, r) ELSE r

DiagIs(r, t, ref, code, add) == r.t = t /\ r.ref = ref /\ r.diag = code /\ r.add = add
Failed(r, t) == r.t = t /\ CASE t = "searchr" -> r.status = 0 /\ r.hits = 0
                  [] t = "presentr" -> r.pstatus = 5
                  [] t = "scanr" -> r.status = 6
CloseIs(r, ref, reason) == r.t = "close" /\ r.ref = ref /\ r.reason = reason

(* no back end answered: the databases or the initialisation are at fault *)
NoBackend(s, e, t) ==
  LET r == s.cur.r
      d == DbErr(s.p, r.dbs, 1, "")
      i == s.cur.initr
  IN /\ ~e.closed
     /\ e.r.t = t
     /\ Failed(e.r, t)
     /\ IF d.code # 0 THEN DiagIs(e.r, t, r.ref, d.code, d.add)
        ELSE /\ s.cur.failed # 0
             /\ IF i.t = "initr" /\ i.diag # 0 THEN DiagIs(e.r, t, r.ref, i.diag, i.add)
                ELSE DiagIs(e.r, t, r.ref, 236, r.dbs[1])

CrespOk(s, e) ==
  LET r == s.cur.r  c == s.cur IN
  /\ e.s = c.s
  /\ IF c.closed /\ r.t = "none" THEN e.r.t = "none" /\ e.closed
     ELSE IF Passing(s) THEN c.sent # 0 /\ e.r = c.last /\ e.closed = c.lastclosed
     ELSE CASE r.t = "init" /\ ~Cur(s).virt ->
                 /\ e.r.t = "initr" /\ e.r.ok /\ e.r.ref = r.ref /\ e.r.diag = 0 /\ ~e.closed
                 /\ Rng(e.r.opts) = Rng(r.opts) \cap {"search", "present", "named", "scan"}
                 /\ e.r.pms = r.pms /\ e.r.mrs = r.mrs
            [] r.t = "init" -> CloseIs(e.r, r.ref, 6) /\ e.closed
            [] r.t = "search" ->
                 IF r.set \in DOMAIN Cur(s).sets /\ ~r.rep
                 THEN c.failed = 0 /\ DiagIs(e.r, "searchr", r.ref, 21, "") /\ Failed(e.r, "searchr") /\ ~e.closed
                 ELSE IF c.sent = 0 THEN NoBackend(s, e, "searchr")
                 ELSE IF c.lastclosed THEN e.r = c.last /\ e.closed
                 ELSE e.r = Fixed(s, c.last) /\ ~e.closed
            [] r.t = "present" ->
                 IF r.set \notin DOMAIN Cur(s).sets
                 THEN DiagIs(e.r, "presentr", r.ref, 30, r.set) /\ Failed(e.r, "presentr") /\ ~e.closed
                 ELSE c.sent # 0 /\ e.r = Fixed(s, c.last) /\ e.closed = c.lastclosed
            [] r.t = "scan" ->
                 IF c.sent = 0 THEN NoBackend(s, e, "scanr")
                 ELSE e.r = c.last /\ e.closed = c.lastclosed
            [] r.t = "close" ->
                 IF c.relayed = {} THEN CloseIs(e.r, r.ref, 0) /\ e.closed
                 ELSE e.r = c.last /\ e.closed /\ Mine(s, c.s) \subseteq c.relayed
            [] OTHER -> CloseIs(e.r, r.ref, 6) /\ e.closed

VAllowed(s, e) ==
  CASE e.op = "config" -> e.ok
    [] e.op = "params" -> TRUE
    [] e.op = "creq" -> ~s.cur.on /\ ~Cl(s, e.s).gone
    [] e.op = "breq" -> BreqOk(s, e)
    [] e.op = "bresp" -> TRUE
    [] e.op = "cresp" -> s.cur.on /\ CrespOk(s, e)
    (* nothing of a client that is gone is left open at the back ends *)
    [] e.op = "fin" -> ~s.cur.on /\ \A b \in DOMAIN s.bs : Cl(s, s.bs[b].owner).gone => ~s.bs[b].open
    [] OTHER -> FALSE

(* ------------------------------ next state -------------------------------- *)
Breq(s, e) ==
  IF e.closed /\ e.r.t = "none"
  THEN IF e.s \in DOMAIN s.bs THEN [s EXCEPT !.bs[e.s].open = FALSE] ELSE s
  ELSE IF Passing(s) THEN [s EXCEPT !.cur.sent = e.s]
  ELSE IF e.r.t = "init"
       THEN [s EXCEPT !.bs = Put(@, e.s, [owner |-> s.cur.s, bk |-> e.bk, fdbs |-> s.cur.r.dbs, named |-> FALSE,
                                          open |-> TRUE, sets |-> <<>>]),
                      !.cur.failed = e.s]
  ELSE IF e.r.t = "search"
       THEN [s EXCEPT !.bs[e.s].sets = Put(@, e.r.set, s.n), !.cur.sent = e.s, !.cur.id = s.n]
  ELSE IF e.r.t = "close" THEN [s EXCEPT !.cur.relayed = @ \cup {e.s}]
  ELSE [s EXCEPT !.cur.sent = e.s]

Bresp(s, e) ==
  IF Passing(s) \/ ~s.cur.on THEN [s EXCEPT !.cur.last = e.r, !.cur.lastclosed = e.closed]
  ELSE IF s.cur.failed = e.s
       THEN (* the answer to init *)
            IF e.r.t = "initr" /\ e.r.ok /\ ~e.closed
            THEN [s EXCEPT !.bs[e.s].named = "named" \in Rng(e.r.opts), !.cur.failed = 0, !.cur.initr = e.r]
            ELSE [s EXCEPT !.cur.initr = e.r, !.bs[e.s].open = ~e.closed]
  ELSE [s EXCEPT !.cur.last = e.r, !.cur.lastclosed = IF s.cur.r.t = "close" THEN FALSE ELSE e.closed,
                 !.bs[e.s].open = ~e.closed]

Cresp(s, e) ==
  LET r == s.cur.r
      c == Cur(s)
      good == s.cur.sent # 0 /\ ~s.cur.lastclosed /\ s.cur.last.t = "searchr" /\ s.cur.last.kind \in {"none", "recs"}
      c2 == CASE Passing(s) -> c
              [] r.t = "init" /\ ~c.virt -> [c EXCEPT !.virt = TRUE, !.init = r]
              [] r.t = "search" /\ s.cur.sent # 0 ->
                   [c EXCEPT !.sets = IF good THEN Put(@, r.set, s.cur.id) ELSE Del(@, r.set)]
              [] OTHER -> c
  IN [s EXCEPT !.cl = Put(@, s.cur.s, [c2 EXCEPT !.gone = e.closed]),
               !.cur = Idle, !.n = @ + 1]

VApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = [Idle EXCEPT !.on = TRUE, !.s = e.s, !.r = e.r, !.closed = e.closed]]
    [] e.op = "breq" -> Breq(s, e)
    [] e.op = "bresp" -> Bresp(s, e)
    [] e.op = "cresp" -> Cresp(s, e)
    [] OTHER -> s
=============================================================================
