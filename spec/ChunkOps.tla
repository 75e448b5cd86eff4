------------------------------ MODULE ChunkOps ------------------------------
(* The present_chunk filter: a present of many records becomes presents of at *)
(* most p.chunk records each, answered as one.                                *)
EXTENDS FiltBase

CStart == [p |-> [chunk |-> 0], cur |-> <<>>]
Chunked(s, r) == r.t = "present" /\ s.p.chunk > 0 /\ r.num > 0
Min(a, b) == IF a < b THEN a ELSE b
Kind(r) == r.t = "presentr" /\ r.kind = "recs"
(* the next part is asked for as long as records come *)
More(s, c) == c.state = "ask" /\ Len(c.recs) < c.r.num

CAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp"} -> TRUE
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" ->
         \/ Ended(e)
         \/ /\ e.s \in DOMAIN s.cur
            /\ LET c == s.cur[e.s] IN
               IF Chunked(s, c.r)
               THEN More(s, c) /\ e.r = [c.r EXCEPT !.start = @ + Len(c.recs), !.num = Min(s.p.chunk, c.r.num - Len(c.recs))]
               ELSE c.state = "ask" /\ e.r = c.r
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN
            IF c.r.t = "none" THEN e.r = None
            ELSE IF c.state = "answer" THEN e.r = c.last /\ e.closed = c.lastclosed
            ELSE /\ Chunked(s, c.r) /\ c.last.t # "none"
                 /\ c.state = "stop" \/ ~More(s, c)
                 /\ ~e.closed
                 /\ e.r = [c.last EXCEPT !.ref = c.r.ref, !.n = Len(c.recs), !.recs = c.recs]
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

CApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, state |-> "ask", recs |-> <<>>, asked |-> 0, last |-> None, lastclosed |-> FALSE])]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].state = "wait", !.cur[e.s].asked = IF Chunked(s, s.cur[e.s].r) THEN e.r.num ELSE 0]
    [] e.op = "bresp" ->
         LET c == s.cur[e.s]
             good == Chunked(s, c.r) /\ Kind(e.r) /\ ~e.closed
             new == IF good THEN SubSeq(e.r.recs, 1, Min(Len(e.r.recs), c.r.num - Len(c.recs))) ELSE <<>>
         IN [s EXCEPT !.cur[e.s] = [c EXCEPT !.last = e.r, !.lastclosed = e.closed, !.recs = @ \o new,
                                             !.state = IF ~good THEN "answer" ELSE IF new = <<>> THEN "stop" ELSE "ask"]]
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s)]
    [] OTHER -> s
=============================================================================
