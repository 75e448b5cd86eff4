------------------------------ MODULE PlainOps ------------------------------
(* Three small filters.  p.kind: "bounce" answers everything itself and ends  *)
(* the session (p.echo: HTTP answers show the request); "sdr" (sd_remove)     *)
(* passes everything and turns diagnostics among the records of an answer     *)
(* into text records; "zee" (zeerex_explain) answers SRU explain requests of  *)
(* its databases (p.reqs: what a request is, by its X-Id) and passes others.  *)
EXTENDS LogOps, HttpBase

YStart == [p |-> [kind |-> "none"], cur |-> <<>>]

CRLF == "\r\n"
RECURSIVE Lines(_)
Lines(h) == IF h = <<>> THEN "" ELSE h[1][1] \o ": " \o h[1][2] \o CRLF \o Lines(Tail(h))
Wire(r) == r.method \o " " \o r.path \o " HTTP/" \o r.ver \o CRLF
           \o (IF r.body # "" /\ Hdrs(r.h, {"Content-Length"}) = <<>> THEN "Content-Length: " \o Str(r.len) \o CRLF ELSE "")
           \o Lines(r.h) \o CRLF \o r.body

BounceOk(p, r, e) ==
  /\ e.closed
  /\ IF r.t \in {"none", "httpr"} THEN e.r = None
     ELSE IF r.t = "http"
     THEN /\ Answers(e, r, 400, TRUE)
          /\ p.echo => e.r.body = Wire(r) /\ Hdrs(e.r.h, CType) = <<<<"Content-Type", "text/plain">>>>
     ELSE e.r.t = "close" /\ e.r.ref = r.ref /\ e.r.reason = 2 /\ e.r.x.msg = <<"BOUNCE " \o Text(r)>>

(* the record shown in place of a diagnostic *)
Shown(p, x) ==
  [db |-> x.db, k |-> "rec", syn |-> "SUTRS", code |-> 0, add |-> "",
   v |-> " ERROR " \o Str(x.code) \o ": " \o p.names[Str(x.code)] \o (IF x.add = "" THEN "" ELSE " -- " \o x.add) \o "\n"]
Cleared(p, r) ==
  IF r.t \in {"searchr", "presentr"} /\ r.kind = "recs" /\ r.n > 0
  THEN [r EXCEPT !.recs = [i \in DOMAIN r.recs |-> IF r.recs[i].k = "diag" THEN Shown(p, r.recs[i]) ELSE r.recs[i]]]
  ELSE r

Todo(p, r) ==
  IF p.kind = "bounce" THEN "answer"
  ELSE IF p.kind = "sdr" \/ r.t # "http" THEN "pass"
  ELSE p.reqs[Hdr(r.h, {"X-Id"})].do
ZeeOk(p, r, e) ==
  LET q == p.reqs[Hdr(r.h, {"X-Id"})] x == e.r.sru
      own == x.k = "explain" /\ x.host = q.host /\ x.port = q.port /\ x.db = q.db
  IN CASE q.do = "explain" -> Answers(e, r, 200, FALSE) /\ own /\ x.diags = q.diags /\ x.packing = q.packing
       [] q.do = "undecodable" -> Answers(e, r, 200, TRUE) /\ own
       [] q.do = "fault" -> Answers(e, r, 200, TRUE) /\ x.k = "fault"
       [] q.do = "refused" -> Answers(e, r, 400, TRUE)

YAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp"} -> TRUE
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" ->
         \/ Ended(e)
         \/ e.s \in DOMAIN s.cur /\ s.cur[e.s].state = "pass" /\ e.r = s.cur[e.s].r
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN
            CASE c.r.t = "none" /\ s.p.kind # "bounce" -> e.r = None
              [] c.state = "done" -> e.closed = c.lastclosed /\ e.r = IF s.p.kind = "sdr" THEN Cleared(s.p, c.last) ELSE c.last
              [] c.state \in {"pass", "wait"} -> FALSE
              [] s.p.kind = "bounce" -> BounceOk(s.p, c.r, e)
              [] OTHER -> ZeeOk(s.p, c.r, e)
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

YApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, last |-> None, lastclosed |-> FALSE,
                                                       state |-> IF e.r.t = "none" THEN "end" ELSE Todo(s.p, e.r)])]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].state = "wait"]
    [] e.op = "bresp" -> IF e.s \in DOMAIN s.cur /\ s.cur[e.s].state = "wait"
                         THEN [s EXCEPT !.cur[e.s].state = "done", !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed] ELSE s
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s)]
    [] OTHER -> s
=============================================================================
