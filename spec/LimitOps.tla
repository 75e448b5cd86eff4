------------------------------ MODULE LimitOps ------------------------------
(* The limit filter: a session that did more in the last minute than it may   *)
(* has to wait; no present asks for more records than allowed.                *)
EXTENDS FiltBase

MStart == [p |-> [bw |-> 0], now |-> 60, slept |-> 0, log |-> <<>>, cur |-> <<>>]
NoLog == [bw |-> <<>>, pdu |-> <<>>, search |-> <<>>]
LogOf(s, x) == IF x \in DOMAIN s.log THEN s.log[x] ELSE NoLog
RECURSIVE Sum(_, _)
Sum(q, since) == IF q = <<>> THEN 0 ELSE (IF q[1].t > since THEN q[1].n ELSE 0) + Sum(Tail(q), since)
Total(s, q) == Sum(q, s.now - 60)
Max(a, b) == IF a > b THEN a ELSE b
Asked(p, r) == IF r.t = "present" /\ p.retrieve > 0 /\ r.num > p.retrieve THEN [r EXCEPT !.num = p.retrieve] ELSE r
(* the delay after the request of session x was answered *)
Delay(s, x) ==
  LET g == LogOf(s, x)
      a == (IF s.p.search = 0 THEN 0 ELSE Total(s, g.search) \div s.p.search)
         + (IF s.p.bw = 0 THEN 0 ELSE Total(s, g.bw) \div s.p.bw)
  IN IF s.p.pdu > 0 /\ Total(s, g.pdu) > s.p.pdu THEN Max(a, IF s.p.pdu >= 60 THEN 1 ELSE 60 \div s.p.pdu) ELSE a

AddTo(s, x, f, n) == [s EXCEPT !.log = Put(@, x, [LogOf(s, x) EXCEPT ![f] = Append(@, [t |-> s.now, n |-> n])])]
(* the state when the answer e was there, before the delay *)
Counted(s, e) == AddTo(AddTo([s EXCEPT !.now = @ - s.slept], e.s, "bw", (IF IsZ(s.cur[e.s].r) THEN s.cur[e.s].sz ELSE 0) + e.sz), e.s, "pdu", 1)

MAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp", "time"} -> TRUE
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" -> Ended(e) \/ (e.s \in DOMAIN s.cur /\ ~s.cur[e.s].sent /\ e.r = Asked(s.p, s.cur[e.s].r))
    (* a request waits at most once, and as long as it must *)
    [] e.op = "sleep" -> e.n > 0
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN c.r.t = "none" \/ (c.sent /\ e.r = c.last /\ e.closed = c.lastclosed)
         /\ s.slept = Delay(Counted(s, e), e.s)
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

MApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "time" -> [s EXCEPT !.now = @ + e.n]
    [] e.op = "sleep" -> [s EXCEPT !.now = @ + e.n, !.slept = @ + e.n]
    [] e.op = "creq" -> LET s2 == [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, sz |-> e.sz, sent |-> FALSE, last |-> None, lastclosed |-> FALSE])]
                        IN IF e.r.t = "search" THEN AddTo(s2, e.s, "search", 1) ELSE s2
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].sent = TRUE]
    [] e.op = "bresp" -> [s EXCEPT !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed]
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s), !.slept = 0,
                                   !.log = IF e.closed THEN Del(@, e.s) ELSE Counted(s, e).log]
    [] OTHER -> s
=============================================================================
