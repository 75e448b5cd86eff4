------------------------------ MODULE SruOps ------------------------------
(* The sru_z3950 filter: one SRU request is one Z39.50 session.  p.reqs tells *)
(* what each HTTP request (by its X-Id header) asks for, p.limit is the most  *)
(* records to retrieve (0: any), p.d maps Bib-1 diagnostics to SRU's.         *)
EXTENDS HttpBase

SStart == [p |-> [reqs |-> <<>>, limit |-> 0, d |-> <<>>], cur |-> <<>>]
Min(a, b) == IF a < b THEN a ELSE b
Diag(code, det) == <<code, det>>
D(p, code) == p.d[ToString(code)]

InitOf(q) == [t |-> "init", ref |-> "", opts |-> <<"search", "present", "scan", "named">>, auth |-> q.auth, open |-> q.open,
              group |-> "", user |-> q.user, pass |-> q.pass, vh |-> q.vh, oi |-> q.oi, cs |-> "", pms |-> 10485760, mrs |-> 10485760]
SearchOf(q) == [t |-> "search", ref |-> "", dbs |-> q.dbs, set |-> "default", q |-> q.qs, rep |-> TRUE, ssub |-> 0, lslb |-> 1,
                mspn |-> 0, syn |-> "", sesn |-> "", mesn |-> ""]
PresentOf(c) == [t |-> "present", ref |-> "", set |-> "default", start |-> c.q.start + Len(c.recs), num |-> c.want - Len(c.recs),
                 syn |-> "XML", esn |-> c.q.schema, comp |-> IF c.q.schema = "" THEN "none" ELSE "simple"]
(* the next thing for the back end, in this state *)
Ask(c) == CASE c.state = "init" -> InitOf(c.q)
            [] c.state = "search" -> SearchOf(c.q)
            [] c.state = "present" -> PresentOf(c)
            [] OTHER -> None

IsRec(r) == r.k = "rec" /\ r.syn = "XML"
RecOf(p, q, r, pos) ==
  IF IsRec(r) THEN [pos |-> pos, schema |-> q.schema, packing |-> q.packing, v |-> r.v, code |-> 0, add |-> ""]
  ELSE [pos |-> pos, schema |-> "info:srw/schema/1/diagnostics-v1.1", packing |-> "xml", v |-> "",
        code |-> IF r.k = "diag" THEN D(p, r.code) ELSE 67, add |-> IF r.k = "diag" THEN r.add ELSE ""]

(* what is wrong with what is asked for, given the number of hits *)
Wrong(q, hits) ==
     (IF q.xpath THEN <<Diag(72, "")>> ELSE <<>>)
  \o (IF q.sort THEN <<Diag(80, "")>> ELSE <<>>)
  \o (IF q.start < 1 \/ q.start > hits THEN <<Diag(61, "")>> ELSE <<>>)
  \o (IF q.max < 0 THEN <<Diag(6, "maximumRecords")>> ELSE <<>>)
Want(p, q, hits) == LET m == IF p.limit > 0 THEN Min(q.max, p.limit) ELSE q.max IN Min(m, hits - q.start + 1)

(* the start of a request *)
Begin(q) ==
  LET c == [q |-> q, state |-> "answer", diags |-> <<>>, hits |-> -1, recs |-> <<>>, want |-> 0, partial |-> FALSE, given |-> FALSE]
  IN IF q.op # "search" THEN c
     ELSE IF ~q.hasq THEN [c EXCEPT !.diags = <<Diag(7, "query"), Diag(10, "CQL query is empty")>>]
     ELSE [c EXCEPT !.state = "init"]
AfterInit(p, c, r) ==
  IF r.t = "initr" /\ r.ok
  THEN IF c.q.badq THEN [c EXCEPT !.state = "close", !.diags = <<Diag(10, "query")>>] ELSE [c EXCEPT !.state = "search"]
  ELSE [c EXCEPT !.state = "failed",
                 !.diags = IF r.t = "initr" THEN IF r.diag # 0 THEN <<Diag(D(p, r.diag), r.add)>> ELSE <<Diag(3, "")>>
                           ELSE <<Diag(2, "sru_z3950: expected initResponse")>>]
IsNSD(r) == r.kind \in {"nsd", "mnsd"}
AfterSearch(p, c, r) ==
  IF r.t # "searchr" THEN [c EXCEPT !.state = "close", !.diags = <<Diag(2, "")>>]
  ELSE IF IsNSD(r) THEN [c EXCEPT !.state = "close", !.diags = <<Diag(D(p, r.diag), r.add)>>]
  ELSE LET w == Wrong(c.q, r.hits) IN
       IF r.hits = 0 \/ c.q.max = 0 THEN [c EXCEPT !.state = "close", !.hits = r.hits]
       ELSE IF w # <<>> THEN [c EXCEPT !.state = "close", !.hits = r.hits, !.diags = w]
       ELSE [c EXCEPT !.state = "present", !.hits = r.hits, !.want = Want(p, c.q, r.hits), !.given = TRUE]
AfterPresent(p, c, r) ==
  IF r.t # "presentr" THEN [c EXCEPT !.state = "close", !.diags = <<Diag(2, "")>>, !.partial = TRUE]
  ELSE IF IsNSD(r) THEN [c EXCEPT !.state = "close", !.diags = <<Diag(D(p, r.diag), r.add)>>, !.partial = TRUE]
  ELSE IF r.kind # "recs" \/ r.recs = <<>> THEN [c EXCEPT !.state = "close"]
  ELSE LET n == Len(c.recs)
           recs == c.recs \o [i \in 1..Min(Len(r.recs), c.want - n) |-> RecOf(p, c.q, r.recs[i], c.q.start + n + i - 1)]
       IN [c EXCEPT !.recs = recs, !.state = IF Len(recs) < c.want THEN "present" ELSE "close"]
After2(p, c, r) == CASE c.state = "initw" -> AfterInit(p, c, r)
                     [] c.state = "searchw" -> AfterSearch(p, c, r)
                     [] c.state = "presentw" -> AfterPresent(p, c, r)

(* the SRU response for it; diagnostics of the decoder (q.pre) come first *)
DiagsOk(c, ds) == ds = c.q.pre \o c.diags \/ (c.diags # <<>> /\ ds = c.diags)
SruOk(c, x) ==
  CASE c.q.op = "search" ->
         /\ x.k = "sr" /\ DiagsOk(c, x.diags)
         /\ x.hits = c.hits
         /\ IF c.partial THEN x.recs = <<>> \/ x.recs = c.recs ELSE x.recs = c.recs
         /\ x.next = (IF c.given /\ ~c.partial /\ c.q.start + Len(c.recs) <= c.hits THEN c.q.start + Len(c.recs) ELSE -1)
    [] c.q.op = "scan" -> x.k = "scan" /\ DiagsOk([c EXCEPT !.diags = <<Diag(4, "scan")>>], x.diags)
    [] c.q.op = "explain" -> x.k = "explain" /\ x.diags = c.q.pre /\ x.host = c.q.host /\ x.port = c.q.port /\ x.db = c.q.db
    [] c.q.op = "fault" -> x.k = "fault"

SAllowed(s, e) ==
  CASE e.op \in {"config", "params"} -> TRUE
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" ->
         IF Ended(e) THEN e.s \notin DOMAIN s.cur \/ s.cur[e.s].state \in {"end", "close", "failed"}
         ELSE /\ e.s \in DOMAIN s.cur
              /\ LET c == s.cur[e.s] IN
                 IF c.state = "pass" THEN e.r = c.r
                 ELSE c.state \in {"init", "search", "present"} /\ e.r = Ask(c) /\ ~e.closed
    [] e.op = "bresp" -> TRUE
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN
            CASE c.state = "end" -> e.r = None
              [] c.state = "passed" -> e.r = c.last /\ e.closed = c.lastclosed
              [] c.state \in {"answer", "failed"} ->
                   IF c.q.op = "bad" THEN e.r.t = "httpr" /\ e.r.code = 400 /\ e.closed
                   ELSE /\ Answers(e, c.r, 200, c.q.op = "fault") /\ Hdr(e.r.h, CType) = "text/xml"
                        /\ SruOk(c, e.r.sru)
              [] OTHER -> FALSE
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

SApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" ->
         [s EXCEPT !.cur = Put(@, e.s,
            IF e.r.t = "none" THEN [state |-> "end"]
            ELSE IF e.r.t = "http" THEN [r |-> e.r] @@ Begin(s.p.reqs[Hdr(e.r.h, {"X-Id"})])
            ELSE [r |-> e.r, state |-> "pass", last |-> None, lastclosed |-> FALSE])]
    [] e.op = "breq" ->
         IF Ended(e) THEN IF e.s \in DOMAIN s.cur /\ s.cur[e.s].state \in {"close", "failed"}
                          THEN [s EXCEPT !.cur[e.s].state = "answer"] ELSE s
         ELSE [s EXCEPT !.cur[e.s].state = IF @ = "pass" THEN "passw" ELSE @ \o "w"]
    [] e.op = "bresp" ->
         LET c == s.cur[e.s] IN
         IF c.state = "passw" THEN [s EXCEPT !.cur[e.s] = [c EXCEPT !.state = "passed", !.last = e.r, !.lastclosed = e.closed]]
         ELSE [s EXCEPT !.cur[e.s] = After2(s.p, c, e.r)]
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s)]
    [] OTHER -> s
=============================================================================
