------------------------------- MODULE LinkOps -------------------------------
(* The http_rewrite filter: which parts of requests and responses its rules   *)
(* are tried on, and what they make of them.  Texts are sequences of          *)
(* character codes; regular expressions are given as trees.                   *)
EXTENDS FiltBase
H == INSTANCE HtmlOps

LStart == [p |-> [none |-> TRUE], cur |-> <<>>]

(* ---------------------------------------------------- regular expressions *)
(* an expression is a sequence of nodes: a run of a set of characters (as     *)
(* long as possible first), the bounds of group n, alternatives, ends of the  *)
(* text.  no: where an empty match is none (0: nowhere).                      *)
Has(nd, c) == (c \in Rng(nd.s)) # nd.neg
RECURSIVE Run(_, _, _, _)
Run(nd, d, i, m) == IF m = 0 \/ i > Len(d) \/ ~Has(nd, d[i]) THEN 0 ELSE 1 + Run(nd, d, i + 1, m - 1)
NoMatch == [ok |-> FALSE, e |-> 0, caps |-> <<>>]
RECURSIVE Match(_, _, _, _, _, _), Longest(_, _, _, _, _, _, _), OneOf(_, _, _, _, _, _, _)
Match(ns, d, i, caps, from, no) ==
  IF ns = <<>> THEN IF i = from /\ i = no THEN NoMatch ELSE [ok |-> TRUE, e |-> i, caps |-> caps]
  ELSE LET nd == ns[1] IN
       CASE nd.k = "set" -> Longest(ns, d, i, caps, from, no, Run(nd, d, i, nd.max))
         [] nd.k = "open" -> Match(Tail(ns), d, i, Put(caps, nd.n, <<i, i>>), from, no)
         [] nd.k = "close" -> Match(Tail(ns), d, i, Put(caps, nd.n, <<caps[nd.n][1], i>>), from, no)
         [] nd.k = "alt" -> OneOf(ns, d, i, caps, from, no, 1)
         [] nd.k = "bot" -> IF i = from THEN Match(Tail(ns), d, i, caps, from, no) ELSE NoMatch
         [] nd.k = "eot" -> IF i = Len(d) + 1 THEN Match(Tail(ns), d, i, caps, from, no) ELSE NoMatch
Longest(ns, d, i, caps, from, no, n) ==
  IF n < ns[1].min THEN NoMatch
  ELSE LET m == Match(Tail(ns), d, i + n, caps, from, no) IN IF m.ok THEN m ELSE Longest(ns, d, i, caps, from, no, n - 1)
OneOf(ns, d, i, caps, from, no, k) ==
  IF k > Len(ns[1].a) THEN NoMatch
  ELSE LET m == Match(ns[1].a[k] \o Tail(ns), d, i, caps, from, no) IN IF m.ok THEN m ELSE OneOf(ns, d, i, caps, from, no, k + 1)
(* the first match that starts at i or later *)
RECURSIVE Search(_, _, _, _)
Search(ns, d, i, no) ==
  IF i > Len(d) + 1 THEN [ok |-> FALSE, b |-> 0, e |-> 0, caps |-> <<>>]
  ELSE LET m == Match(ns, d, i, <<>>, i, no) IN
       IF m.ok THEN [ok |-> TRUE, b |-> i, e |-> m.e, caps |-> m.caps]
       ELSE IF ns # <<>> /\ ns[1].k = "bot" THEN [ok |-> FALSE, b |-> 0, e |-> 0, caps |-> <<>>]
       ELSE Search(ns, d, i + 1, no)

(* -------------------------------------------------------------- rewriting *)
(* the result of a rule: \x is x, ${name} the last text a group of that name  *)
(* was, nothing if there was none                                             *)
RECURSIVE Fill(_, _, _), NameEnd(_, _)
NameEnd(r, i) == IF r[i] = 125 THEN i ELSE NameEnd(r, i + 1)
Fill(r, i, vars) ==
  IF i > Len(r) THEN <<>>
  ELSE IF r[i] = 92 THEN (IF i < Len(r) THEN <<r[i + 1]>> ELSE <<>>) \o Fill(r, i + 2, vars)
  ELSE IF r[i] = 36 THEN
    LET j == NameEnd(r, i + 2)  n == SubSeq(r, i + 2, j - 1)
    IN (IF n \in DOMAIN vars THEN vars[n] ELSE <<>>) \o Fill(r, j + 1, vars)
  ELSE <<r[i]>> \o Fill(r, i + 1, vars)
RECURSIVE SetVars(_, _, _, _, _)
SetVars(names, caps, d, n, vars) ==
  IF n > Len(names) THEN vars
  ELSE SetVars(names, caps, d, n + 1,
    IF names[n] = <<>> THEN vars
    ELSE Put(vars, names[n], IF n \in DOMAIN caps THEN SubSeq(d, caps[n][1], caps[n][2] - 1) ELSE <<>>))
Skipped(skips, txt) == \E i \in 1..Len(skips) : Search(skips[i], txt, 1, 0).ok
(* rule: sequence of [anch, ns, names, to]; the match that starts first, of    *)
(* those the first of the rule, then on from its end; anchored ones only at   *)
(* the start.  -> [hit, txt, vars]                                            *)
RECURSIVE Rewrite(_, _, _, _, _, _, _, _)
Rewrite(rule, d, i, anchor, skips, vars, out, hit) ==
  LET T == {k \in 1..Len(rule) : (~rule[k].anch \/ anchor)}
      F == [k \in T |-> Search(rule[k].ns, d, i, IF hit THEN i ELSE 0)]
      G == {k \in T : F[k].ok}
  IN IF G = {} THEN [hit |-> hit, txt |-> out \o SubSeq(d, i, Len(d)), vars |-> vars]
     ELSE LET k == CHOOSE x \in G : \A y \in G : F[x].b < F[y].b \/ (F[x].b = F[y].b /\ x <= y)
              m == F[k]
              v == SetVars(rule[k].names, m.caps, d, 1, vars)
              was == SubSeq(d, m.b, m.e - 1)
          IN Rewrite(rule, d, m.e, FALSE, skips, v,
                     out \o SubSeq(d, i, m.b - 1) \o (IF Skipped(skips, was) THEN was ELSE Fill(rule[k].to, 1, v)), TRUE)
Apply1(rule, d, anchor, skips, vars) == Rewrite(rule, d, 1, anchor, skips, vars, <<>>, FALSE)

(* in quoted literals only: "..", '..' and, in HTML, &quot;..&quot;, up to the *)
(* end of the line; not in comments to the end of the line                    *)
Quot == <<38, 113, 117, 111, 116, 59>>
IsQuot(d, i) == i + 5 <= Len(d) /\ SubSeq(d, i, i + 5) = Quot
RECURSIVE LitEnd(_, _, _), LineEnd(_, _), Lits(_, _, _, _, _, _, _, _)
LitEnd(d, i, q) == IF i > Len(d) \/ d[i] = 10 \/ (q = 0 /\ IsQuot(d, i)) \/ (q # 0 /\ d[i] = q /\ d[i - 1] # 92) THEN i ELSE LitEnd(d, i + 1, q)
LineEnd(d, i) == IF i > Len(d) \/ d[i] = 10 THEN i ELSE LineEnd(d, i + 1)
Lits(rule, d, i, html, skips, vars, out, hit) ==
  IF i > Len(d) THEN [hit |-> hit, txt |-> out, vars |-> vars]
  ELSE LET q == html /\ IsQuot(d, i)  b == IF q THEN i + 6 ELSE i + 1 IN
       IF q \/ d[i] \in {34, 39} THEN
         LET e == LitEnd(d, b, IF q THEN 0 ELSE d[i]) IN
         IF e > Len(d) THEN [hit |-> hit, txt |-> out \o SubSeq(d, i, Len(d)), vars |-> vars]
         ELSE LET x == Apply1(rule, SubSeq(d, b, e - 1), TRUE, skips, vars)
              IN Lits(rule, d, e + 1, html, skips, x.vars, out \o SubSeq(d, i, b - 1) \o x.txt \o <<d[e]>>, hit \/ x.hit)
       ELSE IF d[i] = 47 /\ i < Len(d) /\ d[i + 1] = 47 THEN
         LET e == LineEnd(d, i) IN Lits(rule, d, e, html, skips, vars, out \o SubSeq(d, i, e - 1), hit)
       ELSE Lits(rule, d, i + 1, html, skips, vars, Append(out, d[i]), hit)

(* w: [hdr, tag, attr (of names), req, ql, rule] *)
Exec(w, d, anchor, skips, vars) ==
  IF w.ql THEN Lits(w.rule, d, 1, TRUE, skips, vars, <<>>, FALSE) ELSE Apply1(w.rule, d, anchor, skips, vars)
(* a list of names, or beginnings of names; any: not given *)
Starts(x, y) == Len(x) >= Len(y) /\ SubSeq(x, 1, Len(y)) = y
Fits(m, x) == ~m.any /\ LET y == LowS(x) IN y \in Rng(m.is) \/ \E i \in 1..Len(m.pre) : Starts(y, m.pre[i])

(* ------------------------------------------------------------------- HTML *)
HashText == <<35, 116, 101, 120, 116>>
First(q, P(_)) == LET S == {i \in 1..Len(q) : P(q[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
ForText(ws, tag) == LET P(w) == Fits(w.tag, tag) /\ Fits(w.attr, HashText) IN First(ws, P)
ForAttr(ws, tag, n) == LET P(w) == (w.tag.any \/ Fits(w.tag, tag)) /\ Fits(w.attr, n) IN First(ws, P)
Left(ws, open, tag) == IF open # <<>> /\ Fits(ws[open[Len(open)]].tag, tag) THEN SubSeq(open, 1, Len(open) - 1) ELSE open
(* open: the withins for text of the elements that are open *)
RECURSIVE Html(_, _, _, _, _, _, _)
Html(ws, evs, i, open, skips, vars, out) ==
  IF i > Len(evs) THEN [txt |-> out, vars |-> vars]
  ELSE LET x == evs[i] IN
    CASE x.e = "open" -> LET w == ForText(ws, x.t) IN Html(ws, evs, i + 1, IF w = 0 THEN open ELSE Append(open, w), skips, vars, out \o <<60>> \o x.t)
      [] x.e = "close" -> Html(ws, evs, i + 1, Left(ws, open, x.t), skips, vars, out \o <<60, 47>> \o x.t)
      [] x.e = "end" -> Html(ws, evs, i + 1, IF x.x = 1 THEN Left(ws, open, x.t) ELSE open, skips, vars, out \o (IF x.x = 1 THEN <<47, 62>> ELSE <<62>>))
      [] x.e = "text" -> IF open = <<>> THEN Html(ws, evs, i + 1, open, skips, vars, out \o x.v)
                         ELSE LET y == Exec(ws[open[Len(open)]], x.v, FALSE, skips, vars) IN Html(ws, evs, i + 1, open, skips, y.vars, out \o y.txt)
      [] x.e = "attr" ->
           LET w == ForAttr(ws, x.t, x.n)
               y == IF w = 0 \/ ~x.h THEN [txt |-> x.v, vars |-> vars] ELSE Exec(ws[w], x.v, TRUE, skips, vars)
               q == IF x.x = 0 THEN <<>> ELSE <<x.x>>
           IN Html(ws, evs, i + 1, open, skips, y.vars, out \o <<32>> \o x.n \o (IF x.h THEN <<61>> \o q \o y.txt \o q ELSE <<>>))

(* -------------------------------------------------------- messages: phases *)
(* r: [h: <<name, value>> of headers, body, path]                             *)
Headers(ph) == LET P(c) == c.type = "headers" IN First(ph, P)
RECURSIVE Each(_, _, _, _)
(* all withins of S in their order, on one text *)
Each(ws, S, d, vars) ==
  IF ws = <<>> THEN [hit |-> FALSE, txt |-> d, vars |-> vars]
  ELSE IF ~S[1] THEN Each(Tail(ws), Tail(S), d, vars)
  ELSE LET x == Exec(ws[1], d, TRUE, <<>>, vars)
           y == Each(Tail(ws), Tail(S), x.txt, x.vars)
       IN [y EXCEPT !.hit = @ \/ x.hit]
RECURSIVE EachHeader(_, _, _, _)
EachHeader(ws, h, i, vars) ==
  IF i > Len(h) THEN [h |-> h, vars |-> vars]
  ELSE LET x == Each(ws, [k \in 1..Len(ws) |-> Fits(ws[k].hdr, h[i][1])], h[i][2], vars)
       IN EachHeader(ws, [h EXCEPT ![i][2] = x.txt], i + 1, x.vars)
HeadersOf(ph, h, vars) == IF Headers(ph) = 0 THEN [h |-> h, vars |-> vars] ELSE EachHeader(ph[Headers(ph)].ws, h, 1, vars)
Lookup(h, n) == LET P(x) == LowS(x[1]) = n IN First(h, P)
ContentType == <<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>
Host == <<104, 111, 115, 116>>
SkipLink == <<120, 45, 109, 101, 116, 97, 112, 114, 111, 120, 121, 45, 115, 107, 105, 112, 108, 105, 110, 107>>
BodyOf(ph, h, body, skips, vars) ==
  LET ct == Lookup(h, ContentType)
      P(c) == c.type # "headers" /\ (c.mime.any \/ Fits(c.mime, h[ct][2]))
      c == IF ct = 0 THEN 0 ELSE First(ph, P)
  IN IF body = <<>> \/ c = 0 \/ (\E i \in 1..Len(body) : body[i] = 0) THEN [txt |-> body, vars |-> vars]
     ELSE IF ph[c].type = "html" THEN Html(ph[c].ws, H!Parse(body), 1, <<>>, skips, vars, <<>>)
     ELSE IF ph[c].type = "quoted-literal" /\ ph[c].ws # <<>> THEN
       LET x == Lits(ph[c].ws[1].rule, body, 1, FALSE, skips, vars, <<>>, FALSE) IN [txt |-> x.txt, vars |-> x.vars]
     ELSE [txt |-> body, vars |-> vars]
Absolute(u) == Starts(u, <<104, 116, 116, 112, 58, 47, 47>>) \/ Starts(u, <<104, 116, 116, 112, 115, 58, 47, 47>>)
Proto(ssl) == IF ssl THEN <<104, 116, 116, 112, 115, 58, 47, 47>> ELSE <<104, 116, 116, 112, 58, 47, 47>>
(* the URL asked for; without a host none but the path *)
Url(r, path, ssl) == LET k == Lookup(r.h, Host) IN
  IF Absolute(path) THEN [ok |-> TRUE, u |-> path] ELSE IF k = 0 THEN [ok |-> FALSE, u |-> path] ELSE [ok |-> TRUE, u |-> Proto(ssl) \o r.h[k][2] \o path]
(* the request that is sent, and what is needed for the response              *)
Sent(p, r, ssl) ==
  LET u == Url(r, r.path, ssl)
      ws == IF Headers(p.req) = 0 \/ ~u.ok THEN <<>> ELSE p.req[Headers(p.req)].ws
      l == Each(ws, [k \in 1..Len(ws) |-> ws[k].req], u.u, <<>>)
      path == IF l.hit THEN l.txt ELSE r.path
      url == Url(r, path, ssl).u
      Sk == SelectSeq(r.h, LAMBDA x : LowS(x[1]) = SkipLink /\ "page" \in DOMAIN x[3] /\ Search(x[3].page, url, 1, 0).ok)
      skips == [i \in 1..Len(Sk) |-> Sk[i][3].link]
      hh == HeadersOf(p.req, SelectSeq(r.h, LAMBDA x : LowS(x[1]) # SkipLink), l.vars)
      b == BodyOf(p.req, hh.h, r.body, skips, hh.vars)
  IN [r |-> [r EXCEPT !.path = path, !.h = hh.h, !.body = b.txt], skips |-> skips, vars |-> b.vars]
Back(p, x, r) ==
  IF r.t # "httpr" THEN r
  ELSE LET hh == HeadersOf(p.res, r.h, x.vars)
           b == BodyOf(p.res, hh.h, r.body, x.skips, hh.vars)
       IN [r EXCEPT !.h = hh.h, !.body = b.txt]
Asked(p, r) == IF r.t = "http" THEN Sent(p, r, p.ssl) ELSE [r |-> r, skips |-> <<>>, vars |-> <<>>]

LAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp"} -> e.op = "config" => e.ok
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" -> Ended(e) \/ (e.s \in DOMAIN s.cur /\ ~s.cur[e.s].sent /\ e.r = s.cur[e.s].ask.r)
    [] e.op = "cresp" -> /\ e.s \in DOMAIN s.cur
                         /\ LET c == s.cur[e.s] IN IF c.r.t = "none" THEN e.r = None ELSE e.closed = c.lastclosed /\ c.sent /\ e.r = Back(s.p, c.ask, c.last)
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE
LApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, ask |-> Asked(s.p, e.r), sent |-> FALSE, last |-> None, lastclosed |-> FALSE])]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].sent = TRUE]
    [] e.op = "bresp" -> [s EXCEPT !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed]
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s)]
    [] OTHER -> s
=============================================================================
