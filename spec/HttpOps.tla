------------------------------ MODULE HttpOps ------------------------------
(* The http_file filter.  p.areas: prefix and root (codes), raw, pass;        *)
(* p.files: what there is on disk, under its normal name: kind "file", "big"  *)
(* or "dir", text t, and, read as a recorded HTTP message, rawok, code, rt.   *)
EXTENDS HttpBase

GStart == [p |-> [areas |-> <<>>, files |-> <<>>, mime |-> <<>>, names |-> <<>>], cur |-> <<>>]

(* /a//b/./c and /a/b/c name one file *)
RECURSIVE Parts(_, _)
Parts(q, cur) == IF q = <<>> THEN <<cur>>
                 ELSE IF q[1] = 47 THEN <<cur>> \o Parts(Tail(q), <<>>) ELSE Parts(Tail(q), Append(cur, q[1]))
Norm(q) == SelectSeq(Parts(q, <<>>), LAMBDA x : x # <<>> /\ x # <<46>>)
(* a name with this ending can only be that of a directory *)
AsDir(q) == LET x == After(q, 47) IN x = <<>> \/ x = <<46>>
HasDots(q) == \E i \in 1..Len(q)-1 : q[i] = 46 /\ q[i+1] = 46

Path(raw) == Upto(UriDec(Upto(Upto(raw, 35), 63)), 0)
RECURSIVE AreaOf(_, _)
AreaOf(areas, path) == IF areas = <<>> THEN [none |-> TRUE]
                       ELSE IF IsPrefix(areas[1].prefix, path) THEN [none |-> FALSE, a |-> areas[1]]
                       ELSE AreaOf(Tail(areas), path)
(* what follows the prefix is below the root, whatever it starts with *)
File(a, path) == LET rest == SubSeq(path, Len(a.prefix) + 1, Len(path)) IN
                 IF rest = <<>> \/ rest[1] = 47 \/ a.root[Len(a.root)] = 47 THEN a.root \o rest
                 ELSE a.root \o <<47>> \o rest
Lookup(p, q) == LET K == {i \in 1..Len(p.files) : Norm(p.files[i].p) = Norm(q) /\ p.files[i].kind # "dir"} IN
                IF AsDir(q) \/ K = {} THEN [kind |-> "none"] ELSE p.files[CHOOSE i \in K : TRUE]
Mime(p, q) == LET last == After(q, 47)
                  ext == After(last, 46)
                  K == {i \in 1..Len(p.mime) : p.mime[i].ext = ext}
              IN IF 46 \notin Rng(last) \/ K = {} THEN "application/octet-stream"
                 ELSE p.mime[CHOOSE i \in K : \A j \in K : j <= i].type

(* what is to be done with a request *)
Todo(p, r) ==
  IF r.t # "http" THEN [do |-> "move"]
  ELSE LET path == Path(p.names[r.path])
           ar == AreaOf(p.areas, path)
       IN IF HasDots(path) \/ ar.none THEN [do |-> "move"]
          ELSE LET name == File(ar.a, path)
                   f == Lookup(p, name)
                   no(c) == IF ar.a.pass THEN [do |-> "move"] ELSE [do |-> "code", code |-> c]
               IN IF r.method # "GET" THEN no(405)
                  ELSE IF f.kind = "none" THEN no(404)
                  ELSE IF f.kind = "big" THEN [do |-> "code", code |-> 404]
                  ELSE IF ar.a.raw THEN IF f.rawok THEN [do |-> "raw", code |-> f.code, t |-> f.rt] ELSE [do |-> "code", code |-> 500]
                  ELSE [do |-> "file", t |-> f.t, type |-> Mime(p, name)]

GAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp"} -> TRUE
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" ->
         \/ Ended(e)
         \/ e.s \in DOMAIN s.cur /\ s.cur[e.s].state = "new" /\ s.cur[e.s].todo.do = "move" /\ e.r = s.cur[e.s].r
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] d == c.todo IN
            IF c.r.t = "none" THEN e.r = None
            ELSE IF d.do = "move" THEN c.state = "done" /\ e.r = c.last /\ e.closed = c.lastclosed
            ELSE c.state = "new" /\
              (CASE d.do = "code" -> Answers(e, c.r, d.code, FALSE) /\ d.code \in {404, 405, 500}
                [] d.do = "raw" -> e.r.t = "httpr" /\ e.r.code = d.code /\ e.r.body = d.t /\ ~e.closed
                [] d.do = "file" -> Answers(e, c.r, 200, FALSE) /\ e.r.body = d.t
                                    /\ Hdrs(e.r.h, CType) = <<<<"Content-Type", d.type>>>>)
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

GApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, state |-> "new", last |-> None, lastclosed |-> FALSE,
                                                       todo |-> IF e.r.t = "none" THEN [do |-> "move"] ELSE Todo(s.p, e.r)])]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].state = "wait"]
    [] e.op = "bresp" -> [s EXCEPT !.cur[e.s].state = "done", !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed]
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s)]
    [] OTHER -> s
=============================================================================
