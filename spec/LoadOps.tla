------------------------------- MODULE LoadOps -------------------------------
(* The load_balance filter: an init goes to the least loaded target that      *)
(* takes it; the load is what is open there.                                  *)
EXTENDS FiltBase

(* sess: open session -> its target; dead: target -> sessions lost            *)
LStart == [sess |-> <<>>, dead |-> <<>>, cur |-> <<>>]
SessionsAt(s, t) == Cardinality({x \in DOMAIN s.sess : s.sess[x] = t})
PackagesAt(s, t) == Cardinality({x \in DOMAIN s.cur : s.cur[x].counted /\ x \in DOMAIN s.sess /\ s.sess[x] = t})
Cost(s, t) == SessionsAt(s, t) + PackagesAt(s, t) + (IF t \in DOMAIN s.dead THEN s.dead[t] ELSE 0)
RECURSIVE Without(_, _)
Without(q, x) == IF q = <<>> THEN <<>> ELSE IF q[1] = x THEN Tail(q) ELSE <<q[1]>> \o Without(Tail(q), x)
Usable(q) == SelectSeq(q, LAMBDA v : v # "")

BreqOk(s, e) ==
  \/ Ended(e)
  \/ /\ e.s \in DOMAIN s.cur
     /\ LET c == s.cur[e.s] IN
        IF c.r.t # "init" THEN ~c.sent /\ e.r = c.r
        ELSE /\ ~c.on
             /\ e.r = [c.r EXCEPT !.vh = e.r.vh]
             /\ Len(e.r.vh) = 1
             /\ e.r.vh[1] \in Rng(c.left)
             /\ \A v \in Rng(c.left) : Cost(s, e.r.vh[1]) <= Cost(s, v)
CrespOk(s, e) ==
  /\ e.s \in DOMAIN s.cur
  /\ LET c == s.cur[e.s] IN
     IF c.r.t = "none" THEN e.r = None
     ELSE IF c.r.t = "init"
     THEN IF c.on THEN e.r = c.last /\ ~e.closed
          ELSE c.left = <<>> /\ DiagIs(e.r, "initr", c.r.ref, 2, "load_balance: no available targets") /\ ~e.r.ok /\ e.closed
     ELSE /\ c.sent /\ e.r = c.last
          /\ e.closed = (c.lastclosed \/ c.r.t = "close" \/ c.last.t = "close")

LAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp"} -> TRUE
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" -> BreqOk(s, e)
    [] e.op = "cresp" -> CrespOk(s, e)
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

(* a session ends; when its target has none left its record starts anew *)
EndSess(s, x) ==
  IF x \notin DOMAIN s.sess THEN s
  ELSE LET t == s.sess[x]  s2 == [s EXCEPT !.sess = Del(@, x)]
       IN IF SessionsAt(s2, t) = 0 THEN [s2 EXCEPT !.dead = Del(@, t)] ELSE s2
LApply(s, e) ==
  CASE e.op = "creq" ->
         [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, left |-> IF e.r.t = "init" THEN Usable(e.r.vh) ELSE <<>>, on |-> FALSE, asked |-> "",
                                        sent |-> FALSE, counted |-> IsZ(e.r) /\ e.r.t # "init", last |-> None, lastclosed |-> FALSE])]
    [] e.op = "breq" ->
         IF Ended(e) THEN EndSess(s, e.s)
         ELSE IF s.cur[e.s].r.t = "init" THEN [s EXCEPT !.cur[e.s].left = Without(@, e.r.vh[1]), !.cur[e.s].asked = e.r.vh[1]]
         ELSE [s EXCEPT !.cur[e.s].sent = TRUE]
    [] e.op = "bresp" ->
         IF s.cur[e.s].r.t = "init"
         THEN IF e.closed THEN s
              ELSE LET s2 == EndSess(s, e.s) IN [s2 EXCEPT !.cur[e.s].on = TRUE, !.cur[e.s].last = e.r, !.sess = Put(@, e.s, s.cur[e.s].asked)]
         ELSE [s EXCEPT !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed]
    [] e.op = "cresp" ->
         LET c == s.cur[e.s]
             s2 == [s EXCEPT !.cur = Del(@, e.s)]
         IN IF c.r.t = "init" \/ ~e.closed THEN s2
            ELSE LET t == IF e.s \in DOMAIN s.sess THEN s.sess[e.s] ELSE ""
                     s3 == IF c.r.t \in {"close", "none"} \/ t = "" THEN s2
                           ELSE [s2 EXCEPT !.dead = Put(@, t, 1 + IF t \in DOMAIN s.dead THEN s.dead[t] ELSE 0)]
                 IN EndSess(s3, e.s)
    [] OTHER -> s
=============================================================================
