------------------------------- MODULE WebOps -------------------------------
(* Two filters for HTTP.  p.kind "get" (http_client) answers HTTP requests    *)
(* with what the URL they are for gives: "exec" is its request, "got" the     *)
(* answer.  p.kind "subst" (http_rewrite1) replaces, in answers to HTTP       *)
(* requests, what regular expressions match (trees, see LinkOps; bodies are   *)
(* sequences of codes there).  Everything else passes unchanged.              *)
EXTENDS LinkOps
HB == INSTANCE HttpBase

WStart == [p |-> [kind |-> "none", ok |-> TRUE], cur |-> <<>>]

(* ------------------------------------------------------------- http_client *)
Named(x, n) == x[1] \in n
XP == {"X-Metaproxy-Proxy", "x-metaproxy-proxy"}
XF == {"X-Forwarded-For", "x-forwarded-for"}
Without(h, n) == SelectSeq(h, LAMBDA x : ~Named(x, n))
(* every request says (X-Id) which it is, and p.ids where it came from *)
Id(r) == HB!Hdr(r.h, {"X-Id"})
Place(h, n) == CHOOSE i \in DOMAIN h : Named(h[i], n) /\ \A j \in 1..i - 1 : ~Named(h[j], n)
Forwarded(p, h, peer) ==
  IF ~p.xff THEN h
  ELSE IF Cardinality({i \in DOMAIN h : Named(h[i], XF)}) = 0 THEN Append(h, <<"X-Forwarded-For", peer>>)
  ELSE [h EXCEPT ![Place(h, XF)][2] = h[Place(h, XF)][2] \o ", " \o peer]
Base(p, r) == IF p.ids[Id(r)].abs THEN r.path ELSE IF p.host = "" THEN "" ELSE p.host \o r.path
Uris(p, r) == LET b == p.ids[Id(r)].bind IN
              IF ~p.bind THEN {Base(p, r)} ELSE IF b = "" THEN {Base(p, r), Base(p, r) \o " "} ELSE {Base(p, r) \o " " \o b}
AsksFor(p, r, e) ==
  /\ Base(p, r) # "" /\ e.uri \in Uris(p, r)
  /\ e.method = r.method /\ e.body = r.body
  /\ e.h = Forwarded(p, Without(r.h, XP), p.ids[Id(r)].peer)
  /\ e.proxy = (IF HB!Hdrs(r.h, XP) = <<>> THEN p.proxy ELSE HB!Hdr(r.h, XP))
  /\ e.red = p.red
(* what comes is the answer, but not how it was sent *)
Given(r) == [r EXCEPT !.h = Without(r.h, {"Transfer-Encoding", "transfer-encoding"})]
Asking(s, id) == {x \in DOMAIN s.cur : s.cur[x].r.t = "http" /\ Id(s.cur[x].r) = id}

(* ----------------------------------------------------------- http_rewrite1 *)
(* one replacement: [k: "lit", c] text, [k: "cap", n] group n, 0: all of it   *)
RECURSIVE Repl(_, _, _, _)
Repl(to, d, b, m) ==
  IF to = <<>> THEN <<>>
  ELSE LET x == to[1]
           v == IF x.k = "lit" THEN x.c
                ELSE IF x.n = 0 THEN SubSeq(d, b, m.e - 1)
                ELSE IF x.n \in DOMAIN m.caps THEN SubSeq(d, m.caps[x.n][1], m.caps[x.n][2] - 1) ELSE <<>>
       IN v \o Repl(Tail(to), d, b, m)
RECURSIVE Subst(_, _, _, _)
(* i: where to go on; no: an empty match was here *)
Subst(rule, d, i, no) ==
  LET m == IF i > 1 /\ rule.ns # <<>> /\ rule.ns[1].k = "bot" THEN [ok |-> FALSE] ELSE Search(rule.ns, d, i, no)
  IN IF ~m.ok THEN SubSeq(d, i, Len(d))
     ELSE SubSeq(d, i, m.b - 1) \o Repl(rule.to, d, m.b, m)
          \o (IF rule.all THEN Subst(rule, d, m.e, IF m.b = m.e THEN m.e ELSE 0) ELSE SubSeq(d, m.e, Len(d)))
RECURSIVE SubstAll(_, _, _)
SubstAll(rules, type, d) ==
  IF rules = <<>> THEN d
  ELSE SubstAll(Tail(rules), type, IF rules[1].type = type THEN Subst(rules[1], d, 1, 0) ELSE d)
Changed(p, r) ==
  IF r.t # "httpr" \/ HB!Hdrs(r.h, HB!CType) = <<>> \/ r.body = <<>> THEN r
  ELSE [r EXCEPT !.body = SubstAll(p.rules, HB!Hdr(r.h, HB!CType), r.body)]

(* ------------------------------------------------------------------- both *)
WAllowed(s, e) ==
  CASE e.op \in {"params", "bresp"} -> TRUE
    [] e.op = "config" -> e.ok = s.p.ok
    [] e.op = "creq" -> s.p.ok /\ e.s \notin DOMAIN s.cur
    [] e.op = "exec" -> \E x \in Asking(s, e.id) : s.cur[x].state = "ask" /\ AsksFor(s.p, s.cur[x].r, e)
    [] e.op = "got" -> \E x \in Asking(s, e.id) : s.cur[x].state = "asked"
    [] e.op = "breq" -> \/ Ended(e)
                        \/ e.s \in DOMAIN s.cur /\ s.cur[e.s].state = "pass" /\ e.r = s.cur[e.s].r
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN
            CASE c.state = "end" -> e.r = None
              [] c.state = "ask" -> Base(s.p, c.r) = "" /\ HB!Answers(e, c.r, 404, FALSE)
              [] c.state = "got" -> IF c.last = None THEN HB!Answers(e, c.r, 502, FALSE)
                                    ELSE e.r = Given(c.last) /\ e.closed = ~HB!Keep(c.r)
              [] c.state = "done" -> e.closed = c.lastclosed /\ e.r = IF s.p.kind = "subst" /\ c.r.t = "http" THEN Changed(s.p, c.last) ELSE c.last
              [] OTHER -> FALSE
    [] e.op = "urls" -> e.n = 0
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

WApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, last |-> None, lastclosed |-> FALSE,
                           state |-> IF e.r.t = "none" THEN "end" ELSE IF s.p.kind = "get" /\ e.r.t = "http" THEN "ask" ELSE "pass"])]
    [] e.op = "exec" -> LET x == CHOOSE y \in Asking(s, e.id) : s.cur[y].state = "ask" IN [s EXCEPT !.cur[x].state = "asked"]
    [] e.op = "got" -> LET x == CHOOSE y \in Asking(s, e.id) : s.cur[y].state = "asked" IN [s EXCEPT !.cur[x].state = "got", !.cur[x].last = e.r]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].state = "wait"]
    [] e.op = "bresp" -> IF e.s \in DOMAIN s.cur /\ s.cur[e.s].state = "wait"
                         THEN [s EXCEPT !.cur[e.s].state = "done", !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed] ELSE s
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s)]
    [] OTHER -> s
=============================================================================
