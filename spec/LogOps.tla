------------------------------- MODULE LogOps -------------------------------
(* The log filter and the texts it has for packages.  s.rq: requests that are  *)
(* on, each with what is still to be found in log files because of it (due),   *)
(* per file in this order; s.users: what sessions said who they are.           *)
EXTENDS FiltBase

LgStart == [p |-> [none |-> TRUE], rq |-> <<>>, users |-> <<>>, at |-> <<>>]

Str(n) == ToString(n)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
RECURSIVE Spaced(_)
Spaced(q) == IF q = <<>> THEN "" ELSE " " \o q[1] \o Spaced(Tail(q))
Or(q, other) == IF q = <<>> THEN other ELSE q[1]
(* empty texts and -1 are what is not given *)
Ot(t) == IF t = "" THEN "-" ELSE t
On(n) == IF n = -1 THEN "-" ELSE Str(n)
Quote(t) == "\"" \o t \o "\""
Diag(code, add) == Str(code) \o " " \o Quote(add)
At(q, i, other) == IF i \in DOMAIN q THEN q[i] ELSE other

Names == <<"initRequest", "initResponse", "searchRequest", "searchResponse", "presentRequest", "presentResponse",
           "deleteResultSetRequest", "deleteResultSetResponse", "accessControlRequest", "accessControlResponse",
           "resourceControlRequest", "resourceControlResponse", "triggerResourceControlRequest", "resourceReportRequest",
           "resourceReportResponse", "scanRequest", "scanResponse", "sortRequest", "sortResponse", "segmentRequest",
           "extendedServicesRequest", "extendedServicesResponse", "close", "duplicateDetectionRequest", "duplicateDetectionResponse">>
Dump(r) == IF r.t = "http" THEN "HTTP request" ELSE IF r.t = "httpr" THEN "HTTP response" ELSE Names[r.x.w]

User(r) == IF r.auth = "idpass" THEN Ot(r.user) ELSE IF r.auth = "open" THEN r.open ELSE "-"
Failing(r) == r.kind \in {"nsd", "mnsd"}
Reasons == <<"finished", "shutdown", "systemProblem", "costLimit", "resources", "securityViolation", "protocolError",
             "lackOfActivity", "peerAbort", "unspecified">>
Impl(x) == " " \o Or(x.id, "-") \o " " \o Or(x.name, "-") \o " " \o Or(x.ver, "-")
RecsText(r) == IF r.kind = "mnsd" /\ r.x.n = 0 THEN "multipleNSD" ELSE Diag(r.diag, r.add)

(* the text of a package in an access entry *)
Rest(r) ==
  LET x == r.x IN
  CASE r.t = "init" -> " " \o User(r) \o " " \o (IF r.vh = <<>> THEN "-" ELSE Join(r.vh, " ") \o " ") \o Impl(x)
    [] r.t = "initr" -> " " \o (IF r.ok THEN "OK" ELSE "FAIL") \o Impl(x)
    [] r.t = "search" -> " " \o Join(r.dbs, "+") \o " " \o r.set \o " " \o Ot(r.syn) \o " " \o x.q
    [] r.t = "searchr" -> " " \o (IF r.status = 0 THEN "Failure" ELSE "OK")
         \o (IF Failing(r) THEN " DIAG " \o RecsText(r) ELSE " " \o On(r.hits) \o " 1+" \o On(r.n) \o " " \o On(r.next))
    [] r.t = "present" -> " " \o r.set \o " " \o On(r.start) \o "+" \o On(r.num) \o " " \o Ot(r.syn) \o " " \o Ot(r.esn)
    [] r.t = "presentr" -> " " \o At(<<"OK", "Partial-1", "Partial-2", "Partial-3", "Partial-4", "Failure">>, r.pstatus + 1, "Unknown")
         \o (IF Failing(r) THEN " DIAG " \o RecsText(r) ELSE " " \o On(r.n) \o " " \o On(r.next))
    [] r.t = "scan" -> " " \o Join(r.dbs, "+") \o " " \o On(r.num) \o " " \o On(r.pos) \o " " \o On(r.step) \o " " \o x.q
    [] r.t = "scanr" -> " " \o At(<<"OK", "partial_1", "partial_2", "partial_3", "partial_4", "partial_5", "failure">>, r.status + 1, "unknown")
         \o " " \o On(r.n) \o " " \o On(r.pos) \o " " \o On(r.step)
    [] r.t \in {"sort", "sortr"} \/ x.w = 20 -> " "
    [] r.t = "es" -> " " \o At(<<"create", "delete", "modify">>, x.fn, "unknown") \o " " \o Or(x.user, "-") \o " " \o Or(x.pack, "-") \o " " \o Or(x.desc, "-")
    [] r.t = "esr" -> " " \o (IF x.status = 3 THEN IF x.n > 0 THEN "DIAG " \o Diag(x.diag, x.add) ELSE "ERROR"
                              ELSE At(<<"OK", "ACCEPT">>, x.status, "unknown"))
    [] r.t = "close" -> " " \o Str(r.reason) \o " " \o At(Reasons, r.reason + 1, "unknown") \o (IF x.msg = <<>> THEN "" ELSE " " \o x.msg[1])
    [] OTHER -> ""
Text(r) == CASE r.t = "http" -> "HTTP_Request " \o r.method \o " " \o r.path
             [] r.t = "httpr" -> "HTTP_Response " \o Str(r.code) \o " " \o Str(r.len)
             [] OTHER -> "Z3950 " \o Names[r.x.w] \o Rest(r)

(* the one line for a request (as it is in the end) and its answer; "" if none *)
NoDiag(n, code, add) == IF n = 0 THEN "-" ELSE Diag(code, add)
Bad(r) == "ERROR " \o (IF r.kind = "mnsd" THEN NoDiag(r.x.n, r.diag, r.add) ELSE Diag(r.diag, r.add))
Pairs == [x \in {1, 3, 5, 16, 18, 21, 24} |-> x + 1]
First == [x \in {1, 3, 5, 16, 18, 21, 24} |->
            CASE x = 1 -> "Init " [] x = 3 -> "Search " [] x = 5 -> "Present " [] x = 16 -> "Scan "
              [] x = 18 -> "sort " [] x = 21 -> "extendedServices " [] x = 24 -> "duplicateDetention "]
Zero(n) == IF n = -1 THEN 0 ELSE n
One(n) == IF n = -1 THEN 1 ELSE n
Both(q, r) ==
  LET x == q.x IN
  CASE q.t = "init" -> (IF r.ok THEN "OK -" ELSE "ERROR " \o (IF r.diag = 0 THEN "-" ELSE Diag(r.diag, r.add)))
         \o " ID:" \o Or(x.id, "-") \o " Name:" \o Or(x.name, "-") \o " Version:" \o Or(x.ver, "-")
    [] q.t = "search" -> Join(q.dbs, "+") \o " " \o (IF Failing(r) THEN Bad(r) ELSE "OK " \o Str(r.hits) \o " " \o q.set)
         \o " " \o Ot(q.syn) \o " 1+" \o Str(Zero(r.n)) \o " " \o x.q
    [] q.t = "present" -> (IF Failing(r) THEN Bad(r) ELSE "OK") \o " " \o Ot(q.syn) \o " " \o q.set \o " " \o Str(q.start) \o "+" \o Str(q.num) \o " "
    [] q.t = "scan" -> Join(q.dbs, "+") \o " " \o (IF r.status \in {-1, 0} THEN "OK" ELSE IF r.status = 6 THEN "ERROR" ELSE "PARTIAL" \o Str(r.status))
         \o " " \o Str(Zero(r.n)) \o " " \o Str(One(q.pos)) \o "+" \o Str(q.num) \o "+" \o Str(One(r.step)) \o " " \o x.q
    [] q.t = "sort" -> At(<<"OK", "PARTIAL", "ERROR">>, r.x.status + 1, "") \o " " \o NoDiag(r.x.n, r.x.diag, r.x.add)
         \o " (" \o Join(x.in, "+") \o ")->" \o x.out \o " "
    [] q.t = "es" -> At(<<"DONE", "ACCEPTED", "ERROR">>, r.x.status, Str(r.x.status)) \o " " \o NoDiag(r.x.n, r.x.diag, r.x.add)
    [] OTHER -> ""
Line(q, r) ==
  CASE q.t = "none" \/ q.t = "httpr" -> ""
    [] q.t = "http" -> q.method \o " " \o q.path \o " HTTP/" \o q.ver \o (IF r.t = "httpr" THEN " " \o Str(r.code) \o " " \o Str(r.len) ELSE " ?")
    [] OTHER ->
       LET w == q.x.w IN
       IF w \in DOMAIN Pairs
       THEN First[w] \o (IF r.t \in {"none", "http", "httpr"} THEN "?" ELSE IF r.x.w # Pairs[w] THEN "? response=" \o Str(r.x.w) ELSE Both(q, r))
       ELSE CASE w = 7 -> "deleteResultSet " [] w = 9 -> "accessControl " [] w = 11 -> "resourceControl "
              [] w = 13 -> "triggerResourceControlRequest" [] w = 14 -> "resourceReport " [] w = 20 -> "segmentRequest" [] w = 23 -> "close"
              [] OTHER -> "REQ=" \o Str(w) \o (IF r.t \in {"none", "http", "httpr"} THEN " ?" ELSE " RES=" \o Str(r.x.w))

(* what filter f has to say: entries, each <<file, kind, text>> *)
Entry(f, t) == <<f.file, "line", f.pre \o f.msg \o t>>
When(c, e) == IF c THEN <<e>> ELSE <<>>
IsInit(r) == r.t = "init"
Full(f, r, c) == When(c /\ r.t # "none", <<f.file, "dump", IF r.t = "none" THEN "" ELSE Dump(r)>>)
Asked(f, x, user) ==
     When(f.access /\ x.r.t # "none", Entry(f, " " \o x.who \o " 0.000000 " \o (IF x.r.t = "none" THEN "" ELSE Text(x.r))))
  \o When(f.user /\ x.r.t # "none", Entry(f, " " \o user \o " " \o x.who \o " 0.000000 " \o (IF x.r.t = "none" THEN "" ELSE Text(x.r))))
  \o When(f.reqs, Entry(f, " request id=" \o Str(x.sid) \o " close=" \o (IF x.closed THEN "yes" ELSE "no")))
  \o When(f.opts /\ x.r.t = "init", Entry(f, " init options:" \o (IF x.r.t = "init" THEN Spaced(x.r.x.opts) ELSE "")))
  \o Full(f, x.r, f.reqa)
Secs(ms) == Str(ms \div 1000) \o "." \o (LET m == ms % 1000 IN IF m < 10 THEN "00" ELSE IF m < 100 THEN "0" ELSE "") \o Str(ms % 1000) \o "000"
Answered(f, x, user, r, closed, ms) ==
  LET line == Line(x.r, r)  t == " " \o Secs(ms - x.at) \o " " IN
     When(f.line /\ line # "", Entry(f, " " \o x.who \o t \o line))
  \o When(f.access /\ r.t # "none", Entry(f, " " \o x.who \o t \o (IF r.t = "none" THEN "" ELSE Text(r))))
  \o When(f.user /\ r.t # "none", Entry(f, " " \o user \o " " \o x.who \o t \o (IF r.t = "none" THEN "" ELSE Text(r))))
  \o When(f.ress, Entry(f, " response id=" \o Str(x.sid) \o " close=" \o (IF closed THEN "yes" ELSE "no") \o " duration=" \o Secs(ms - x.at)))
  \o When(f.opts /\ r.t = "initr", Entry(f, " init options:" \o (IF r.t = "initr" THEN Spaced(r.x.opts) ELSE "")))
  \o Full(f, r, f.resa)
RECURSIVE Cat(_)
Cat(qs) == IF qs = <<>> THEN <<>> ELSE qs[1] \o Cat(Tail(qs))
All(fs, Op(_)) == Cat([i \in 1..Len(fs) |-> Op(fs[i])])
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

Known(s, n) == IF n \in DOMAIN s.users THEN s.users[n] ELSE "-"
Now(s, e) == IF e.r.t = "init" /\ e.r.auth # "none" THEN User(e.r) ELSE Known(s, e.s)
Where(d, f) == {i \in 1..Len(d) : d[i][1] = f}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
HeadIn(d, f) == d[Least(Where(d, f))]
Without(d, f) == LET k == Least(Where(d, f)) IN [i \in 1..(Len(d) - 1) |-> IF i < k THEN d[i] ELSE d[i + 1]]
(* whose entry it is; entries of one request by one filter are not interrupted *)
Fits(s, e) == {q \in DOMAIN s.rq : LET d == s.rq[q].due IN Where(d, e.f) # {} /\ HeadIn(d, e.f) = <<e.f, e.op, e.x>>}

LgAllowed(s, e) ==
  CASE e.op \in {"config", "params", "time"} -> e.op = "config" => e.ok
    [] e.op = "creq" -> e.q \notin DOMAIN s.rq
    [] e.op \in {"line", "dump"} -> Fits(s, e) # {}
    [] e.op = "breq" -> /\ e.q \in DOMAIN s.rq
                        /\ LET x == s.rq[e.q] IN x.ph = "asked" /\ x.due = <<>> /\ e.r = x.r /\ e.closed = x.closed /\ e.s = x.s
    [] e.op = "bresp" -> s.rq[e.q].ph = "sent"
    [] e.op = "cresp" -> /\ e.q \in DOMAIN s.rq
                         /\ LET x == s.rq[e.q] IN
                            /\ x.ph = IF x.r.t = "none" THEN "sent" ELSE "answered"
                            /\ x.ph = "answered" => x.due = <<>> /\ e.r = x.out /\ e.closed = x.shut
                            /\ x.ph = "sent" => e.r.t = "none" /\ e.closed = x.closed /\ x.due = <<>>
    [] e.op = "fin" -> s.rq = <<>>
    [] OTHER -> FALSE

LgApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" ->
         LET u == Now(s, e)
             x == [s |-> e.s, sid |-> e.sid, closed |-> e.closed, at |-> e.ms, r |-> e.r, user |-> u, ph |-> "asked", out |-> None, shut |-> FALSE,
                   who |-> IF e.who \in DOMAIN s.p.peers THEN s.p.peers[e.who] \o ":" \o Str(e.oid) \o " " \o Str(e.sid) ELSE "0:0 " \o Str(e.sid), due |-> <<>>]
         IN [s EXCEPT !.rq = Put(@, e.q, [x EXCEPT !.due = All(s.p.filters, LAMBDA f : Asked(f, x, u))]),
                      !.users = IF e.closed THEN Del(@, e.s) ELSE IF e.r.t = "init" /\ e.r.auth # "none" THEN Put(@, e.s, u) ELSE @]
    [] e.op \in {"line", "dump"} -> LET q == CHOOSE q \in Fits(s, e) : TRUE IN [s EXCEPT !.rq[q].due = Without(@, e.f)]
    [] e.op = "breq" ->
         LET x == s.rq[e.q] IN
         [s EXCEPT !.rq[e.q].ph = "sent", !.rq[e.q].due = IF x.r.t = "none" THEN All(Rev(s.p.filters), LAMBDA f : Answered(f, x, x.user, None, e.closed, x.at)) ELSE <<>>]
    [] e.op = "bresp" ->
         LET x == s.rq[e.q] IN
         [s EXCEPT !.rq[e.q].ph = "answered", !.rq[e.q].out = e.r, !.rq[e.q].shut = e.closed,
                   !.rq[e.q].due = All(Rev(s.p.filters), LAMBDA f : Answered(f, x, x.user, e.r, e.closed, e.ms))]
    [] e.op = "cresp" -> [s EXCEPT !.rq = Del(@, e.q)]
    [] OTHER -> s
=============================================================================
