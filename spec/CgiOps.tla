------------------------------- MODULE CgiOps -------------------------------
(* The cgi filter: HTTP requests for a mapped path are answered by running    *)
(* the program it is mapped to (paths and values are sequences of codes), all *)
(* other requests pass.  p.maps: [path, dir, prog, there]; p.env: variables   *)
(* configured.  "fork": a program is started; "fault": the system refuses to. *)
(* The programs answer with what they were given, see harness/cgi.            *)
EXTENDS HttpBase

GStart == [p |-> [maps |-> <<>>, env |-> <<>>], cur |-> <<>>, forks |-> 0, faults |-> 0]

Mapped(p, r) == {i \in DOMAIN p.maps : IsPrefix(p.maps[i].path, r.path)}
First(p, r) == p.maps[CHOOSE i \in Mapped(p, r) : \A j \in Mapped(p, r) : i <= j]
Rest(p, r) == SubSeq(r.path, Len(First(p, r).path) + 1, Len(r.path))
HasQ(q) == \E i \in DOMAIN q : q[i] = 63
QAt(q) == CHOOSE i \in DOMAIN q : q[i] = 63 /\ \A j \in 1..i - 1 : q[j] # 63
Info(q) == IF HasQ(q) THEN SubSeq(q, 1, QAt(q) - 1) ELSE q
Query(q) == IF HasQ(q) THEN SubSeq(q, QAt(q) + 1, Len(q)) ELSE <<>>
(* variables from headers *)
FromHeaders == "HTTP_COOKIE" :> {"Cookie", "cookie"} @@ "HTTP_USER_AGENT" :> {"User-Agent", "user-agent"} @@ "HTTP_ACCEPT" :> {"Accept", "accept"}
               @@ "HTTP_ACCEPT_ENCODING" :> {"Accept-Encoding"} @@ "CONTENT_TYPE" :> CType
Env(p, r) ==
  LET q == Rest(p, r)
      m == "REQUEST_METHOD" :> r.methodc @@ "REQUEST_URI" :> r.path @@ "SCRIPT_NAME" :> First(p, r).path @@ "PATH_INFO" :> Info(q) @@ "QUERY_STRING" :> Query(q)
           @@ "DOCUMENT_ROOT" :> <<46>> @@ "GATEWAY_INTERFACE" :> <<67, 71, 73, 47, 49, 46, 49>> @@ "PWD" :> First(p, r).dir
      h == [v \in {w \in DOMAIN FromHeaders : Hdrs(r.hc, FromHeaders[w]) # <<>>} |-> Hdr(r.hc, FromHeaders[v])]
      l == IF Hdrs(r.hc, CType) # <<>> THEN "CONTENT_LENGTH" :> r.lenc ELSE <<>>
  IN p.env @@ m @@ h @@ l
(* what its query makes a program do *)
Does(p, r, m) == \E i \in DOMAIN Query(Rest(p, r)) : LET q == Query(Rest(p, r)) IN i + Len(m) - 1 <= Len(q) /\ SubSeq(q, i, i + Len(m) - 1) = m
MJunk == <<109, 61, 106, 117, 110, 107>>
MNone == <<109, 61, 110, 111, 110, 101>>
MPlain == <<109, 61, 112, 108, 97, 105, 110>>
MRead == <<109, 61, 114, 101, 97, 100>>
MBig == <<109, 61, 98, 105, 103>>
(* a program that gives nothing usable, or is not there at all: either an     *)
(* error, or an empty answer                                                  *)
NoAnswer(p, r) == ~First(p, r).there \/ Does(p, r, MJunk) \/ Does(p, r, MNone)
Empty(e, r) == e.r.t = "httpr" /\ e.r.code = 200 /\ e.r.body = <<>> /\ e.r.h = <<>> /\ e.closed \in {FALSE, ~Keep(r)}
Invalid == <<73, 110, 118, 97, 108, 105, 100>>
Refused(e, r) == Answers(e, r, 400, FALSE) /\ ~IsPrefix(Invalid, e.r.body)
ByProgram(p, e, r) ==
  /\ e.r.t = "httpr" /\ e.r.code = 200 /\ e.r.ver = "1.1"
  /\ e.closed \in {FALSE, ~Keep(r)}
  /\ IF Does(p, r, MPlain) THEN e.r.h = <<>> /\ e.r.body = <<112, 108, 97, 105, 110>>
     ELSE /\ e.r.h = <<<<"Content-Type", "text/plain">>, <<"X-Prog", First(p, r).prog>>>>
          /\ e.r.env = Env(p, r)
          /\ e.r.big = Does(p, r, MBig)
          /\ e.r.body = (IF Does(p, r, MRead) /\ "CONTENT_LENGTH" \in DOMAIN Env(p, r) THEN r.body ELSE <<>>)

GAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp"} -> TRUE
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "fork" -> s.forks + s.faults < Cardinality({x \in DOMAIN s.cur : s.cur[x].state = "run"})
    [] e.op = "fault" -> s.forks + s.faults < Cardinality({x \in DOMAIN s.cur : s.cur[x].state = "run"})
    [] e.op = "breq" -> \/ Ended(e)
                        \/ e.s \in DOMAIN s.cur /\ s.cur[e.s].state = "pass" /\ e.r = s.cur[e.s].r
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN
            CASE c.state = "end" -> e.r = None
              [] c.state = "run" -> \/ s.forks > 0 /\ IF NoAnswer(s.p, c.r) THEN \/ Answers(e, c.r, 400, FALSE) /\ IsPrefix(Invalid, e.r.body)
                                                                                 \/ (~First(s.p, c.r).there \/ ~Does(s.p, c.r, MJunk)) /\ Empty(e, c.r)
                                                      ELSE ByProgram(s.p, e, c.r)
                                    \/ s.faults > 0 /\ Refused(e, c.r)
              [] c.state = "done" -> e.closed = c.lastclosed /\ e.r = c.last
              [] OTHER -> FALSE
    [] e.op = "procs" -> DOMAIN s.cur = {} => (e.fds = 0 /\ e.kids = 0)
    [] e.op = "fin" -> DOMAIN s.cur = {} /\ s.forks = 0 /\ s.faults = 0
    [] OTHER -> FALSE

GApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, last |-> None, lastclosed |-> FALSE,
                           state |-> IF e.r.t = "none" THEN "end" ELSE IF e.r.t = "http" /\ Mapped(s.p, e.r) # {} THEN "run" ELSE "pass"])]
    [] e.op = "fork" -> [s EXCEPT !.forks = @ + 1]
    [] e.op = "fault" -> [s EXCEPT !.faults = @ + 1]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].state = "wait"]
    [] e.op = "bresp" -> IF e.s \in DOMAIN s.cur /\ s.cur[e.s].state = "wait"
                         THEN [s EXCEPT !.cur[e.s].state = "done", !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed] ELSE s
    [] e.op = "cresp" -> LET c == s.cur[e.s]
                             failed == c.state = "run" /\ s.faults > 0 /\ Refused(e, c.r)
                         IN [s EXCEPT !.cur = Del(@, e.s), !.forks = IF c.state = "run" /\ ~failed THEN @ - 1 ELSE @, !.faults = IF failed THEN @ - 1 ELSE @]
    [] OTHER -> s
=============================================================================
