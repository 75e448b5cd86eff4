------------------------------- MODULE CgiMC -------------------------------
(* Two clients of cgi, programs that answer, break or are not there, and a    *)
(* system that refuses to run them: each mapped request is answered by its    *)
(* own program, told of nothing but this request, or refused, and never       *)
(* passes; all others pass and start nothing; whatever is asked is answered.  *)
EXTENDS CgiOps
CONSTANTS MaxReq, Full
VARIABLES st, k, ran, log
Map(path, prog, there) == [path |-> path, dir |-> <<47>>, prog |-> prog, there |-> there]
Confs == {[maps |-> m, env |-> e] : e \in (IF Full THEN {<<>>, "MY_A" :> <<118>>} ELSE {"MY_A" :> <<118>>}),
          m \in {<<>>, <<Map(<<1>>, "one", TRUE)>>, <<Map(<<1>>, "one", TRUE), Map(<<1, 2>>, "two", TRUE)>>,
                 <<Map(<<1, 2>>, "two", TRUE), Map(<<1>>, "one", TRUE)>>, <<Map(<<1>>, "nope", FALSE)>>}}
Init == k = 0 /\ ran = 0 /\ log = <<>> /\ \E p \in Confs : st = [GStart EXCEPT !.p = p]
CT == "Content-Type"
Http(path, ver, ct, body) == [t |-> "http", methodc |-> <<71>>, path |-> path, ver |-> ver, lenc |-> <<48 + Len(body)>>, body |-> body,
                              h |-> IF ct THEN <<<<CT, "x">>>> ELSE <<>>, hc |-> IF ct THEN <<<<CT, <<120>>>>>> ELSE <<>>]
Paths == {<<2>>, <<1>>, <<1, 2>>, <<1, 3, 63>> \o MRead, <<1, 63>> \o MJunk, <<1, 2, 63>> \o MPlain}
Reqs == IF k >= MaxReq THEN {} ELSE {Http(q, v, c, b) : q \in Paths, v \in (IF Full THEN {"1.0", "1.1"} ELSE {"1.1"}), c \in BOOLEAN, b \in (IF Full THEN {<<>>, <<7>>} ELSE {<<7>>})} \cup {[t |-> "init", ref |-> ""]}
Ss == {"1", "2"}
Resp(code, ver, h, body) == [t |-> "httpr", code |-> code, ver |-> ver, h |-> h, body |-> body, env |-> <<>>, big |-> FALSE]
Gives == {None, Resp(200, "1.1", <<>>, <<9>>), [t |-> "initr", ref |-> ""]}
KA == <<<<"Connection", "Keep-Alive">>>>
Progs(c) == IF c.state # "run" THEN {}
            ELSE {[Resp(200, "1.1", <<<<CT, "text/plain">>, <<"X-Prog", m.prog>>>>, b) EXCEPT !.env = Env(st.p, q)]
                  : m \in Rng(st.p.maps), b \in {<<>>, c.r.body}, q \in {c.r} \cup {st.cur[x].r : x \in {y \in DOMAIN st.cur : st.cur[y].state = "run"}}}
                 \cup {Resp(n, v, h, b) : n \in {200, 400}, v \in {"1.0", "1.1"}, h \in {<<>>, KA}, b \in {<<>>, Invalid, <<112, 108, 97, 105, 110>>}}
Ev == UNION {
  {[op |-> "creq", s |-> x, closed |-> FALSE, r |-> r] : x \in Ss, r \in Reqs},
  {[op |-> "fork"], [op |-> "fault"]},
  {[op |-> "breq", s |-> x, closed |-> FALSE, r |-> st.cur[x].r] : x \in DOMAIN st.cur},
  {[op |-> "bresp", s |-> x, closed |-> c, r |-> b] : x \in {y \in DOMAIN st.cur : st.cur[y].state = "wait"}, b \in Gives, c \in BOOLEAN},
  UNION {{[op |-> "cresp", s |-> x, closed |-> c, r |-> b] : b \in Progs(st.cur[x]) \cup {st.cur[x].last}, c \in BOOLEAN} : x \in DOMAIN st.cur}}
Next == \E e \in Ev :
  /\ IF GAllowed(st, e) THEN st' = GApply(st, e) ELSE FALSE
  /\ k' = IF e.op = "creq" THEN k + 1 ELSE k
  /\ ran' = IF e.op = "fork" THEN ran + 1 ELSE ran
  /\ log' = IF e.op # "cresp" THEN <<>>
            ELSE LET c == st.cur[e.s] IN [r |-> c.r, state |-> c.state, last |-> c.last, a |-> e.r, mapped |-> c.r.t = "http" /\ Mapped(st.p, c.r) # {}]
Spec == Init /\ [][Next]_<<st, k, ran, log>>
FewRun == ran <= k /\ (st.p.maps = <<>> => ran = 0)
NonePassed == \A x \in DOMAIN st.cur : (st.cur[x].r.t = "http" /\ Mapped(st.p, st.cur[x].r) # {}) => st.cur[x].state = "run"
Right == log # <<>> =>
  IF ~log.mapped THEN log.state = "done" /\ log.a = log.last
  ELSE /\ log.a.t = "httpr" /\ log.a.code \in {200, 400}
       /\ (log.a.h # <<>> /\ log.a.h[1][1] = CT) =>
            /\ log.a.env["REQUEST_URI"] = log.r.path
            /\ log.a.env["SCRIPT_NAME"] \o log.a.env["PATH_INFO"] \o (IF log.a.env["QUERY_STRING"] = <<>> THEN <<>> ELSE <<63>> \o log.a.env["QUERY_STRING"]) = log.r.path
            /\ log.a.h[2][2] = (CHOOSE m \in Rng(st.p.maps) : m.path = log.a.env["SCRIPT_NAME"]).prog
            /\ ("MY_A" \in DOMAIN log.a.env) = ("MY_A" \in DOMAIN st.p.env)
            /\ log.a.body \in {<<>>, log.r.body}
CanAnswer == \A x \in DOMAIN st.cur : \E e \in Ev : (e.op \in {"fork", "fault"} /\ GAllowed(st, e)) \/ (e.op \notin {"fork", "fault", "creq"} /\ e.s = x /\ GAllowed(st, e))
=============================================================================
