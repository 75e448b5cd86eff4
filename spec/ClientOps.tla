------------------------------ MODULE ClientOps ------------------------------
(* The z3950_client filter: sessions, their connections to targets, and what   *)
(* is sent and answered on them and when (ms: milliseconds).  e.q is the       *)
(* request an event belongs to, e.s its session, or for the other end (conn,   *)
(* breq, deliver, disc) the connection.                                        *)
EXTENDS FiltBase

ZcStart == [p |-> [none |-> TRUE], cl |-> <<>>, rq |-> <<>>]

Close(r, reason, msg) == [t |-> "close", ref |-> IF r.t = "none" THEN "" ELSE r.ref, reason |-> reason, msg |-> msg]
Bye == [t |-> "close", ref |-> "", reason |-> 0, msg |-> "z3950_client"]
PeerAbort == 8
Has2(r, f) == f \in DOMAIN r

(* the target of a session; n: how many are named *)
Target(p, r) ==
  IF p.forced # "" THEN [n |-> 1, host |-> p.forced]
  ELSE IF Len(r.vh) = 1 THEN [n |-> 1, host |-> r.vh[1]]
  ELSE IF r.vh = <<>> /\ p.deflt # "" THEN [n |-> 1, host |-> p.deflt]
  ELSE [n |-> Len(r.vh), host |-> ""]
Address(p, h) == IF p.bind /\ p.mine # "" THEN h \o " " \o p.mine ELSE h
Max(p) == IF p.omax # 0 THEN p.omax ELSE p.max

(* what is sent for a request; first: it makes the connection *)
OutReq(p, r, first) ==
  IF r.t # "init" THEN r
  ELSE LET a == IF first /\ p.forced = "" THEN [r EXCEPT !.vh = <<>>] ELSE r
           b == IF p.ip /\ p.peer # "" THEN [a EXCEPT !.oi = (IF @ # "" THEN @ \o ", " ELSE "") \o p.peer] ELSE a
       IN IF p.cs # "" /\ b.cs = "" THEN [b EXCEPT !.cs = "(" \o p.cs \o ")", !.opts = SelectSeq(p.optorder, LAMBDA o : o = "negotiation" \/ o \in Rng(b.opts))]
          ELSE b
(* what is made of an answer *)
Named(h, add) == (IF add # "" THEN add \o " " ELSE "") \o "(backend=" \o h \o ")"
Fix(h, r) ==
  IF r.t \in {"searchr", "presentr"} /\ r.kind \in {"nsd", "mnsd"} THEN [r EXCEPT !.add = Named(h, @)]
  ELSE IF r.t = "initr" /\ r.diag # 0 THEN [r EXCEPT !.add = Named(h, @)]
  ELSE r

Of(s, n) == {q \in DOMAIN s.rq : s.rq[q].s = n}
Known(s, n) == n \in DOMAIN s.cl
Conn(s, c) == CHOOSE n \in DOMAIN s.cl : s.cl[n].c = c
IsConn(s, c) == \E n \in DOMAIN s.cl : s.cl[n].c = c
Bounds(s, q) ==
  LET T == IF s.rq[q].st = "conn" THEN s.p.ct ELSE IF s.cl[s.rq[q].s].ph = 1 THEN s.p.it ELSE s.p.gt
  IN IF T = 0 THEN <<0, 1000>> ELSE <<(T - 1) * 1000, T * 1000>>
(* its time may be over now *)
Late(s, q, ms) == LET d == ms - s.rq[q].t  b == Bounds(s, q) IN s.rq[q].st \in {"conn", "sent"} /\ d >= b[1] /\ d <= b[2]
LateOut(s, q) == LET x == s.rq[q] IN
  IF x.r.t = "none" THEN None ELSE Close(x.r, IF x.st = "sent" /\ s.cl[x.s].ph = 2 THEN 7 ELSE PeerAbort, "")
Over(s, q, ms) == (s.rq[q].st = "done" /\ s.rq[q].closed) \/ Late(s, q, ms)
(* nobody has the connection of session n *)
Free(s, n) == LET h == s.cl[n].h IN h = 0 \/ h \notin DOMAIN s.rq \/ (s.rq[h].st = "done" /\ ~s.rq[h].closed)
(* session n is over, though not all its requests need know *)
Gone(s, n, ms) == s.cl[n].gone \/ \E q \in Of(s, n) : Over(s, q, ms)
(* a request is at work on the connection of session n *)
Working(s, n, ms) == LET h == s.cl[n].h IN h \in DOMAIN s.rq /\ s.rq[h].st \in {"conn", "ready", "sent"} /\ ~Late(s, h, ms)
(* a session that ends is told so to the target *)
ByeDue(s, n) == s.p.force /\ s.cl[n].ph > 0 /\ ~s.cl[n].bye

(* a session without a connection: a new one, or requests after its end *)
NoConn(s, n) == IF Known(s, n) THEN s.cl[n].gone /\ ~s.cl[n].open ELSE TRUE
IsFirst(s, q) == NoConn(s, s.rq[q].s)
Waits(s, q) == s.rq[q].st = "start" /\ IsFirst(s, q) /\ s.rq[q].r.t = "init" /\ Target(s.p, s.rq[q].r).n = 1
(* sessions that may have, or get, a connection to host *)
Rivals(s, n, host) == {m \in DOMAIN s.cl \ {n} : s.cl[m].host = host /\ (~s.cl[m].gone \/ s.cl[m].open \/ Of(s, m) # {})}
   \cup {s.rq[q].s : q \in {x \in DOMAIN s.rq : s.rq[x].s # n /\ Waits(s, x) /\ Target(s.p, s.rq[x].r).host = host}}
Live(s, n, host) == {m \in DOMAIN s.cl \ {n} : s.cl[m].host = host /\ s.cl[m].open}
Mark(s) == [s EXCEPT !.rq = [q \in DOMAIN s.rq |->
  IF ~Waits(s, q) THEN s.rq[q]
  ELSE LET R == Rivals(s, s.rq[q].s, Target(s.p, s.rq[q].r).host) IN
       [s.rq[q] EXCEPT !.full = @ \/ Cardinality(R) >= Max(s.p), !.busy = @ \/ \A m \in R : Of(s, m) # {}]]]

InitDiag(e, r, code, add) == DiagIs(e.r, "initr", r.ref, code, add) /\ ~e.r.ok /\ e.closed
Refused(s, e, x) ==
  LET t == Target(s.p, x.r) IN
  IF t.n = 0 THEN InitDiag(e, x.r, 1055, "z3950_client: No vhost given")
  ELSE IF t.n > 1 THEN InitDiag(e, x.r, 23, "z3950_client: Can not cope with multiple vhosts")
  ELSE /\ Max(s.p) # 0 /\ x.full /\ InitDiag(e, x.r, 2, "z3950_client: max sessions")
       /\ e.ms - x.at = s.p.mt * 1000 \/ (x.busy /\ e.ms - x.at < s.p.mt * 1000)
RespOk(s, e) ==
  LET x == s.rq[e.q]  n == x.s IN
  CASE x.st = "done" -> e.r = x.out /\ e.closed = x.closed
    [] x.st \in {"conn", "sent"} -> Late(s, e.q, e.ms) /\ e.r = LateOut(s, e.q) /\ e.closed
    [] x.st = "start" ->
         \/ /\ Known(s, n)
            /\ \/ Gone(s, n, e.ms) /\ e.r = None /\ e.closed = x.end
               \/ x.end /\ Free(s, n) /\ ~ByeDue(s, n) /\ e.r = None /\ e.closed
               \/ x.r.t = "http" /\ Free(s, n) /\ e.r = None /\ ~e.closed
         \/ /\ (x.fresh \/ NoConn(s, n)) /\ IsZ(x.r)
            /\ IF x.r.t # "init" THEN e.r = Close(x.r, 6, "First PDU was not an Initialize Request") /\ e.closed
               ELSE Refused(s, e, x)
    [] OTHER -> FALSE

ZcAllowed(s, e) ==
  CASE e.op \in {"config", "params", "time"} -> e.op = "config" => e.ok
    [] e.op = "creq" -> e.q \notin DOMAIN s.rq
    [] e.op = "conn" ->
         /\ e.q \in DOMAIN s.rq /\ Waits(s, e.q)
         /\ LET t == Target(s.p, s.rq[e.q].r) IN
            /\ e.a = Address(s.p, t.host)
            /\ Max(s.p) = 0 \/ (Cardinality(Live(s, s.rq[e.q].s, t.host)) < Max(s.p) /\ e.ms - s.rq[e.q].at <= s.p.mt * 1000)
    [] e.op = "breq" /\ e.bk = "b" ->
         /\ e.q \in DOMAIN s.rq
         /\ LET x == s.rq[e.q] IN x.st = "start" /\ x.s = e.s /\ (x.fresh \/ NoConn(s, x.s)) /\ ~IsZ(x.r) /\ e.r = x.r /\ e.closed = x.end
    [] e.op = "breq" ->
         /\ e.q \in DOMAIN s.rq
         /\ LET x == s.rq[e.q] IN
            /\ Known(s, x.s) /\ s.cl[x.s].c = e.s /\ s.cl[x.s].host = e.bk /\ ~e.closed
            /\ IF x.st = "ready" THEN e.ms = x.t /\ e.r = OutReq(s.p, x.r, TRUE)
               ELSE /\ x.st = "start" /\ Free(s, x.s) /\ ~s.cl[x.s].gone /\ s.cl[x.s].ph > 0
                    /\ IF x.end THEN ByeDue(s, x.s) /\ e.r = Bye ELSE IsZ(x.r) /\ e.r = OutReq(s.p, x.r, FALSE)
    [] e.op = "bresp" -> TRUE
    [] e.op = "deliver" -> e.q \in DOMAIN s.rq /\ Known(s, s.rq[e.q].s) /\ s.cl[s.rq[e.q].s].c = e.s
                           /\ s.rq[e.q].st \in (IF e.k = "connect" THEN {"conn"} ELSE IF e.k = "fail" THEN {"conn", "sent"} ELSE {"sent"})
                           /\ e.ms - s.rq[e.q].t <= Bounds(s, e.q)[2]
    [] e.op = "disc" -> IsConn(s, e.s) /\ LET n == Conn(s, e.s) IN
                          s.cl[n].open /\ ((Gone(s, n, e.ms) /\ ~Working(s, n, e.ms)) \/ \E q \in Of(s, n) : s.rq[q].end /\ s.rq[q].st = "start" /\ Free(s, n) /\ ~ByeDue(s, n))
    [] e.op = "cresp" -> e.q \in DOMAIN s.rq /\ s.rq[e.q].s = e.s /\ RespOk(s, e)
                         /\ (s.rq[e.q].end /\ Known(s, e.s) => ~s.cl[e.s].open)
    [] e.op = "fin" -> s.rq = <<>> /\ \A n \in DOMAIN s.cl : ~s.cl[n].open
    [] OTHER -> FALSE

Done(s, q, out, closed) == [s EXCEPT !.rq[q].st = "done", !.rq[q].out = out, !.rq[q].closed = closed]
Step(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.rq = Put(@, e.q, [s |-> e.s, r |-> e.r, end |-> e.closed, at |-> e.ms, t |-> e.ms, st |-> "start", fresh |-> ~Known(s, e.s),
                                                     full |-> FALSE, busy |-> FALSE, out |-> None, closed |-> FALSE])]
    [] e.op = "conn" ->
         LET x == s.rq[e.q]
             y == [s EXCEPT !.cl = Put(@, x.s, [c |-> e.s, host |-> Target(s.p, x.r).host, ph |-> 0, bye |-> FALSE,
                                                open |-> e.how # "refuse", h |-> e.q, gone |-> FALSE]),
                            !.rq[e.q].st = "conn", !.rq[e.q].t = e.ms]
         IN IF e.how = "refuse" THEN Done(y, e.q, Close(x.r, PeerAbort, ""), TRUE) ELSE y
    [] e.op = "breq" /\ e.bk = "b" -> IF e.q = 0 THEN s ELSE [s EXCEPT !.rq[e.q].st = "done", !.rq[e.q].closed = e.closed]
    [] e.op = "bresp" /\ e.bk = "b" -> [s EXCEPT !.rq[e.q].out = e.r, !.rq[e.q].closed = e.closed]
    [] e.op = "breq" ->
         LET n == s.rq[e.q].s
             y == [s EXCEPT !.cl[n].h = e.q, !.cl[n].bye = @ \/ e.r.t = "close", !.rq[e.q].st = "sent", !.rq[e.q].t = e.ms]
         IN IF e.r.t = "trigger" THEN Done(y, e.q, None, FALSE) ELSE y
    [] e.op = "deliver" ->
         LET x == s.rq[e.q] IN
         IF e.k = "connect" THEN [s EXCEPT !.cl[x.s].ph = 1, !.rq[e.q].st = "ready", !.rq[e.q].t = e.ms]
         ELSE IF e.k = "fail" \/ e.r.t = "junk" THEN Done(s, e.q, IF x.end THEN None ELSE Close(x.r, PeerAbort, ""), TRUE)
         ELSE LET y == Done(s, e.q, IF x.end THEN None ELSE Fix(s.cl[x.s].host, e.r), x.end)
              IN IF e.r.t = "initr" /\ ~x.end THEN [y EXCEPT !.cl[x.s].ph = 2] ELSE y
    [] e.op = "disc" ->
         LET n == Conn(s, e.s)  y == [s EXCEPT !.cl[n].open = FALSE, !.cl[n].gone = TRUE]
             L == {q \in Of(s, n) : Late(s, q, e.ms)}
         IN IF s.cl[n].gone \/ L = {} THEN y ELSE LET q == CHOOSE q \in L : TRUE IN Done(y, q, LateOut(s, q), TRUE)
    [] e.op = "cresp" ->
         LET n == s.rq[e.q].s
             y == [s EXCEPT !.rq = Del(@, e.q)]
         IN IF ~Known(s, n) THEN y ELSE [y EXCEPT !.cl[n].h = IF @ = e.q THEN 0 ELSE @, !.cl[n].gone = @ \/ (e.closed /\ ~s.rq[e.q].fresh) \/ (e.closed /\ s.cl[n].h = e.q)]
    [] OTHER -> s
ZcApply(s, e) == Mark(Step(s, e))
=============================================================================
