------------------------------- MODULE TestOps -------------------------------
(* The backend_test filter: a back end of one result set of 42 records.       *)
EXTENDS FiltBase

(* cl: the sessions with an init; whether they may name result sets *)
BTStart == [p |-> [none |-> TRUE], cl |-> <<>>, cur |-> <<>>]
Hits == 42
Chosen == {"search", "present", "named"}
In(s, x) == x \in DOMAIN s.cl

(* what a record looks like: position of the USMARC ones, size of the XML ones *)
Format(syn, esn) == CASE syn \in {"", "USmarc"} -> IF esn.name \in {"", "F", "B"} THEN "marc" ELSE "bad"
                      [] syn = "XML" -> IF esn.size >= 0 THEN "xml" ELSE "bad"
                      [] OTHER -> "syn"
Bytes(esn) == IF esn.size < 10 THEN 10 ELSE esn.size
RecordAt(syn, esn, i) ==
  IF Format(syn, esn) = "marc" THEN [db |-> "", k |-> "rec", syn |-> "USmarc", v |-> "marc", n |-> i, code |-> 0, add |-> ""]
  ELSE [db |-> "", k |-> "rec", syn |-> "XML", v |-> "xml", n |-> Bytes(esn), code |-> 0, add |-> ""]
OkR(start, num, syn, esn) ==
  [diag |-> 0, add |-> "", recs |-> [i \in 1..num |-> RecordAt(syn, esn, start + i - 1)],
   next |-> IF start + num > Hits THEN 0 ELSE start + num]
Bad(code, add) == [diag |-> code, add |-> add, recs |-> <<>>, next |-> 0]
(* start, num: bounded to -1..44, which says all that matters *)
Fetch(start, num, syn, esn) ==
  IF start < 1 \/ num < 0 \/ start + num - 1 > Hits THEN Bad(13, "")
  ELSE CASE Format(syn, esn) = "syn" -> Bad(239, "")
         [] Format(syn, esn) = "bad" -> Bad(25, IF esn.name = "" THEN "F" ELSE esn.name)
         [] OTHER -> OkR(start, num, syn, esn)
Min(a, b) == IF a < b THEN a ELSE b
(* small set: all of it; large set: none; between, the medium set number *)
InSearch(r) == IF Hits <= r.ssub THEN Hits ELSE IF Hits >= r.lslb THEN 0 ELSE Min(r.mspn, Hits)
OfSearch(r) == IF Hits <= r.ssub THEN r.se ELSE r.me

Closes(e, c, code) == e.r.t = "close" /\ e.r.ref = c.ref /\ e.r.reason = code /\ e.closed
Answers(s, e, r) ==
  CASE ~IsZ(r) -> FALSE
    [] r.t = "init" ->
         /\ e.r.t = "initr" /\ e.r.ref = r.ref /\ e.r.ok /\ ~e.closed /\ e.r.diag = 0
         /\ Rng(e.r.opts) = Rng(r.opts) \cap Chosen
         /\ e.r.pms = r.pms /\ e.r.mrs = r.mrs
    [] ~In(s, e.s) -> Closes(e, r, 6)
    [] r.t = "close" -> Closes(e, r, 0)
    [] r.t = "search" ->
         /\ ~e.closed
         /\ IF r.set # "default" /\ ~s.cl[e.s] THEN DiagIs(e.r, "searchr", r.ref, 22, "") /\ Failed(e.r, "searchr")
            ELSE LET n == InSearch(r)
                     f == IF n = 0 THEN OkR(1, 0, r.syn, r.se) ELSE Fetch(1, n, r.syn, OfSearch(r))
                 IN /\ DiagIs(e.r, "searchr", r.ref, f.diag, f.add) /\ e.r.hits = Hits
                    /\ IF f.diag # 0 THEN e.r.status = 0 /\ e.r.kind = "nsd"
                       ELSE /\ e.r.status = 1 /\ e.r.n = n /\ e.r.recs = f.recs
                            /\ IF n = 0 THEN e.r.kind = "none" ELSE e.r.next = f.next
    [] r.t = "present" ->
         /\ ~e.closed
         /\ LET f == IF r.comp = "complex" THEN Bad(26, "") ELSE Fetch(r.at, r.many, r.syn, r.ee)
            IN /\ DiagIs(e.r, "presentr", r.ref, f.diag, f.add)
               /\ IF f.diag # 0 THEN Failed(e.r, "presentr")
                  ELSE e.r.pstatus = 0 /\ e.r.n = r.many /\ e.r.recs = f.recs /\ e.r.next = f.next
    [] OTHER -> Closes(e, r, 6)

BTAllowed(s, e) ==
  CASE e.op = "config" -> e.ok
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    (* other packages pass *)
    [] e.op = "breq" -> Ended(e) \/ (e.s \in DOMAIN s.cur /\ ~IsZ(s.cur[e.s].r) /\ ~s.cur[e.s].sent /\ e.r = s.cur[e.s].r)
    [] e.op = "bresp" -> TRUE
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN
            IF IsZ(c.r) THEN Answers(s, e, c.r) ELSE IF c.r.t = "none" THEN e.r = None ELSE c.sent /\ e.r = c.last /\ e.closed = c.lastclosed
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

BTApply(s, e) ==
  CASE e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, sent |-> FALSE, last |-> None, lastclosed |-> FALSE])]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].sent = TRUE]
    [] e.op = "bresp" -> [s EXCEPT !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed]
    [] e.op = "cresp" ->
         LET c == s.cur[e.s]
             s2 == [s EXCEPT !.cur = Del(@, e.s)]
         IN IF e.closed THEN [s2 EXCEPT !.cl = Del(@, e.s)]
            ELSE IF c.r.t = "init" THEN [s2 EXCEPT !.cl = Put(@, e.s, "named" \in Rng(c.r.opts))]
            ELSE s2
    [] OTHER -> s
=============================================================================
