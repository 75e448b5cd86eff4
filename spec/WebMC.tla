------------------------------- MODULE WebMC -------------------------------
(* Two clients of http_client, or of http_rewrite1, and answers out of a      *)
(* small universe: each request gets what the URL it was for gave, or an      *)
(* error of its own, and exactly one URL is asked for it, if there is one;    *)
(* substitution leaves what does not match as it is, ends, and does nothing   *)
(* to texts of other types; whatever is asked is answered.                    *)
EXTENDS WebOps
CONSTANTS MaxReq, MaxLen
VARIABLES st, k, log      \* log: of the last answer: request, URL asked, what it gave, answer
Places == [abs : BOOLEAN, peer : {"p"}, bind : {"", "b"}]
PG(host, xff, b, ids) == [kind |-> "get", ok |-> TRUE, proxy |-> "", host |-> host, red |-> 0, xff |-> xff, bind |-> b, ids |-> ids]
Set(s, neg, mn, mx) == [k |-> "set", s |-> s, neg |-> neg, min |-> mn, max |-> mx]
A == 97  B == 98
Rules == {[ns |-> n, to |-> t, all |-> al, type |-> "t"] :
   n \in {<<Set(<<A>>, FALSE, 1, 1)>>, <<Set(<<A>>, FALSE, 0, 999)>>, <<[k |-> "bot"], Set(<<A>>, FALSE, 1, 1)>>, <<Set(<<A>>, FALSE, 1, 999), [k |-> "eot"]>>,
          <<[k |-> "open", n |-> 1], Set(<<>>, TRUE, 1, 1), [k |-> "close", n |-> 1], Set(<<B>>, FALSE, 1, 1)>>},
   t \in {<<>>, <<[k |-> "lit", c |-> <<B>>]>>, <<[k |-> "cap", n |-> 0]>>, <<[k |-> "cap", n |-> 1], [k |-> "lit", c |-> <<A>>]>>}, al \in BOOLEAN}
Texts == UNION {[1..n -> {A, B}] : n \in 0..MaxLen}
Init == /\ k = 0 /\ log = <<>>
        /\ \/ \E h \in {"", "http://h"}, x \in BOOLEAN, b \in BOOLEAN, i \in Places, j \in Places :
                st = [WStart EXCEPT !.p = PG(h, x, b, "1" :> i @@ "2" :> j)]
           \/ \E r \in Rules : st = [WStart EXCEPT !.p = [kind |-> "subst", ok |-> TRUE, rules |-> <<r>>]]
Http(id, ver, h, body) == [t |-> "http", method |-> "GET", path |-> "/x", ver |-> ver, h |-> <<<<"X-Id", id>>>> \o h, body |-> body]
Get == st.p.kind = "get"
Reqs(x) == IF k >= MaxReq THEN {}
           ELSE IF Get THEN {Http(x, v, h, "") : v \in {"1.0", "1.1"}, h \in {<<>>, <<<<"X-Forwarded-For", "q">>>>, <<<<"X-Metaproxy-Proxy", "o">>>>}}
           ELSE {Http(x, "1.1", <<>>, <<>>), [t |-> "init", ref |-> ""]}
Resp(code, h, body) == [t |-> "httpr", code |-> code, ver |-> "1.1", h |-> h, body |-> body]
Got == {None, Resp(200, <<>>, "x"), Resp(302, <<<<"Transfer-Encoding", "chunked">>>>, "")}
Gives == IF k > 1 THEN {None} ELSE {None, [t |-> "close", ref |-> ""]} \cup {Resp(200, <<<<"Content-Type", y>>>>, b) : y \in {"t", "u"}, b \in Texts}
Urls(r) == {"/x", "http://h/x", "/x b", "/x ", "http://h/x b", "http://h/x ", "", " b"}
KA == <<<<"Connection", "Keep-Alive">>>>
Answ(c) == IF Get THEN {Given(g) : g \in Got \ {None}} \cup {Resp(n, h, "") : n \in {404, 502}, h \in {<<>>, KA}} \cup {[Resp(n, h, "") EXCEPT !.ver = "1.0"] : n \in {404, 502}, h \in {<<>>, KA}}
           ELSE {c.last, Changed(st.p, c.last)}
Ss == {"1", "2"}
Ev == UNION {
  {[op |-> "creq", s |-> x, closed |-> FALSE, r |-> r] : x \in Ss, r \in UNION {Reqs(y) : y \in Ss}} ,
  UNION {{[op |-> "exec", id |-> x, uri |-> u, method |-> "GET", body |-> "", h |-> h, proxy |-> y, red |-> 0] :
     u \in Urls(0), y \in {"", "o"}, h \in {Forwarded(st.p, Without(st.cur[x].r.h, XP), "p")}} : x \in {z \in DOMAIN st.cur : Get /\ st.cur[z].state = "ask"}},
  {[op |-> "got", id |-> x, r |-> g] : x \in Ss, g \in Got},
  {[op |-> "breq", s |-> x, closed |-> FALSE, r |-> st.cur[x].r] : x \in DOMAIN st.cur},
  {[op |-> "bresp", s |-> x, closed |-> c, r |-> b] : x \in {y \in DOMAIN st.cur : st.cur[y].state = "wait"}, b \in Gives, c \in BOOLEAN},
  UNION {{[op |-> "cresp", s |-> x, closed |-> c, r |-> b] : b \in Answ(st.cur[x]), c \in BOOLEAN} : x \in {z \in DOMAIN st.cur : st.cur[z].state \in {"ask", "got", "done"}}}}
Next == \E e \in Ev :
  /\ IF e.op = "creq" /\ Get THEN Id(e.r) = e.s ELSE TRUE
  /\ IF WAllowed(st, e) THEN st' = WApply(st, e) ELSE FALSE
  /\ k' = IF e.op = "creq" THEN k + 1 ELSE k
  /\ log' = IF e.op # "cresp" THEN log ELSE LET c == st.cur[e.s] IN [r |-> c.r, state |-> c.state, last |-> c.last, a |-> e.r, closed |-> e.closed]
Spec == Init /\ [][Next]_<<st, k, log>>
Substituted(u, d, a, type, t) ==
  /\ (type = "u" => a = d)
  /\ (~Search(u.ns, d, 1, 0).ok => a = d)
  /\ (u.to = <<[k |-> "cap", n |-> 0]>> => a = d)
  /\ ((u.to = <<>> /\ u.all /\ u.ns = <<Set(<<A>>, FALSE, 1, 1)>> /\ t = "http" /\ type = "t") => a = SelectSeq(d, LAMBDA c : c = B))
Right == log # <<>> =>
  IF Get THEN /\ log.a.t = "httpr"
              /\ (log.a.code = 404) = (st.p.host = "" /\ ~st.p.ids[Id(log.r)].abs)
              /\ (log.a.code = 502) = (log.state = "got" /\ log.last = None)
              /\ log.closed = (log.r.ver = "1.0")
              /\ \A i \in DOMAIN log.a.h : log.a.h[i][1] # "Transfer-Encoding"
  ELSE /\ (log.r.t # "http" => log.a = log.last)
       /\ IF log.a.t = "httpr" THEN Substituted(st.p.rules[1], log.last.body, log.a.body, HB!Hdr(log.a.h, {"Content-Type"}), log.r.t) /\ log.a.h = log.last.h ELSE TRUE
CanAnswer == \A x \in DOMAIN st.cur : \E e \in Ev : (e.op \in {"exec", "got"} /\ e.id = x /\ WAllowed(st, e)) \/ (e.op \notin {"exec", "got", "creq"} /\ e.s = x /\ WAllowed(st, e))
=============================================================================
