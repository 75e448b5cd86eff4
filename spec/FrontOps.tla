----------------------------- MODULE FrontOps -----------------------------
(* frontend_net: connections to its ports, each with a session of its own;   *)
(* what comes on them reaches the filters of the port's route as packages,   *)
(* which several threads process, and their responses go back.               *)
(* p.ports: address -> back end its route leads to; p.total, p.max, p.http,  *)
(* p.tmo: rules [m |-> peers they are for, v |-> value]; p.stat: path of the *)
(* report, if any; p.peer: name of a connection's other end -> its address.  *)
EXTENDS HttpBase

FStart == [p |-> [ports |-> <<>>], ok |-> TRUE, heard |-> {}, c |-> <<>>, conn |-> <<>>, http |-> <<>>, sig |-> "", ret |-> FALSE,
           done |-> 0, sentn |-> 0]

(* ------------------------------------------------------------------ limits *)
RuleFor(rules, peer) == {i \in DOMAIN rules : peer \in Rng(rules[i].m)}
(* the first rule for the peer, if any, counts *)
Within(rules, peer, n) == LET f == RuleFor(rules, peer) IN
                          f # {} => n < rules[CHOOSE i \in f : \A j \in f : i <= j].v
Value(rules, peer, deflt) == LET f == RuleFor(rules, peer) IN
                             IF f = {} THEN deflt ELSE rules[CHOOSE i \in f : \A j \in f : i <= j].v
(* h: times (ms) of what was accepted, by port and peer *)
Give(h, k) == IF k \in DOMAIN h THEN h[k] ELSE <<>>
Recent(h, k, ms) == Cardinality({i \in DOMAIN Give(h, k) : (ms \div 1000) - (Give(h, k)[i] \div 1000) < 60})
Note(h, k, ms) == Put(h, k, Append(Give(h, k), ms))
Peer(s, x) == s.p.peer[x]
Open(s, peer) == Cardinality({n \in DOMAIN s.c : s.c[n].peer = peer})
Permit(s, a, peer, ms) ==
  /\ Within(s.p.total, peer, Open(s, peer))
  /\ Within(s.p.max, peer, Recent(s.conn, <<a, peer>>, ms))

New(a, peer, sn, ms) == [a |-> a, peer |-> peer, s |-> sn, last |-> ms,
                         over |-> FALSE,            \* the client, or the filter, has ended it
                         cut |-> FALSE,             \* the filter has, at once
                         shut |-> FALSE,            \* the filters have closed the session
                         q |-> {}, run |-> <<>>, ans |-> {},
                         own |-> {},                \* answers of the filter itself
                         told |-> "no",             \* of the end: the filters
                         disc |-> FALSE]

Of(s, sn) == {n \in DOMAIN s.c : s.c[n].s = sn}
Fwd(r, peer) == LET h == IF r.t = "http" THEN Hdrs(r.h, {"X-Forwarded-For"}) ELSE <<>> IN IF h = <<>> THEN peer ELSE h[1][2]

(* what is sent for a request that no filter answered *)
Unhandled(q, r) == IF q.t = "http" THEN r.t = "httpr" /\ r.code = 500
                   ELSE r.t = "close" /\ r.ref = q.ref
Own(c, r) == {x \in c.own : IF x = "stat" THEN r.t = "httpr" /\ r.code = 200 ELSE r.t = "httpr" /\ r.code = 500}
Ans(c, r) == {x \in c.ans : IF x.k = "is" THEN x.r = r ELSE Unhandled(x.r, r)}
Busy(s) == Cardinality(UNION {{<<n, k>> : k \in DOMAIN s.c[n].run} : n \in DOMAIN s.c})
Quiet(c) == c.q = {} /\ DOMAIN c.run = {} /\ c.ans = {} /\ c.own = {}

Reported(s, e) ==
  /\ e.freq >= s.sentn /\ e.freq <= s.done
  /\ e.total >= s.p.threads /\ e.total <= s.p.maxthreads /\ e.busy >= 0 /\ e.busy <= e.total

FAllowed(s, e) ==
  CASE e.op \in {"listen", "config"} -> TRUE
    [] e.op = "params" -> e.p.ok = s.ok /\ (e.p.ok => DOMAIN e.p.ports = s.heard)
    [] e.op = "acc" -> e.a \in s.heard /\ e.c \notin DOMAIN s.c /\ e.ok = Permit(s, e.a, Peer(s, e.peer), e.ms)
    [] e.op = "unheard" -> s.sig # ""
    [] e.op = "deliver" ->
         /\ e.c \in DOMAIN s.c
         /\ LET c == s.c[e.c] IN
            e.k = "timeout" =>
               /\ e.ms - c.last >= 1000 * Value(s.p.tmo, c.peer, 300) /\ e.ms - c.last < 1000 * (Value(s.p.tmo, c.peer, 300) + 1)
               /\ ~(c.shut /\ Quiet(c))                       \* is closed, not left
               /\ c.ans = {} /\ c.own = {}
               /\ (c.q = {} \/ Busy(s) >= s.p.threads)
    [] e.op = "breq" ->
         LET f == Of(s, e.s) IN
         /\ f # {}
         /\ Busy(s) < s.p.maxthreads
         /\ LET c == s.c[CHOOSE n \in f : TRUE] IN
            /\ e.bk = s.p.ports[c.a] /\ e.addr = c.peer /\ e.mine = c.a
            /\ IF e.r.t = "none"
               THEN e.closed /\ c.told = "no" /\ (c.over \/ c.shut) /\ e.fwd = c.peer
               ELSE e.r \in c.q /\ (e.closed => c.over \/ c.told # "no") /\ e.fwd = Fwd(e.r, c.peer)
    [] e.op = "bresp" -> TRUE
    [] e.op = "sent" -> /\ e.c \in DOMAIN s.c
                        /\ LET c == s.c[e.c] IN
                           /\ ~c.disc
                           /\ Ans(c, e.r) # {} \/ Own(c, e.r) # {}
                           /\ e.stat => "stat" \in c.own /\ Reported(s, e)
    [] e.op = "disc" -> /\ e.c \in DOMAIN s.c
                        /\ LET c == s.c[e.c] IN
                           /\ ~c.disc /\ c.own = {}
                           /\ \/ c.cut
                              \/ (c.over \/ c.shut) /\ DOMAIN c.run = {} /\ c.ans = {} /\ (c.over \/ c.q = {})
                              \/ s.sig = "TERM"
    [] e.op = "gone" -> /\ e.c \in DOMAIN s.c
                        /\ \/ LET c == s.c[e.c] IN DOMAIN c.run = {} /\ c.told = "yes" /\ (c.over \/ c.q = {})
                           \/ s.sig = "TERM"
    [] e.op = "signal" -> TRUE
    [] e.op = "unlisten" -> s.sig # "" /\ e.a \in s.heard
    [] e.op = "daemonstop" -> s.sig # ""
    [] e.op = "returned" -> \/ s.sig = "TERM" /\ s.heard = {}
                            \/ s.sig = "USR1" /\ s.heard = {} /\ \A n \in DOMAIN s.c : s.c[n].disc     \* clients all gone
    [] e.op = "fin" -> (s.ok /\ s.sig # "") => s.ret
    [] OTHER -> FALSE

FApply(s, e) ==
  CASE e.op = "listen" -> [s EXCEPT !.heard = @ \cup {e.a}]
    [] e.op = "config" -> [s EXCEPT !.ok = e.ok]
    [] e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "acc" -> IF e.ok THEN [s EXCEPT !.c = Put(@, e.c, New(e.a, Peer(s, e.peer), e.s, e.ms)), !.conn = Note(@, <<e.a, Peer(s, e.peer)>>, e.ms)]
                       ELSE s
    [] e.op = "deliver" ->
         LET c == s.c[e.c]
             key == <<c.a, c.peer>>
             stat == e.k = "recv" /\ e.r.t = "http" /\ s.p.stat # "" /\ e.r.path = s.p.stat
             full == e.k = "recv" /\ ~stat /\ e.r.t = "http" /\ ~Within(s.p.http, c.peer, Recent(s.http, key, e.ms))
             s2 == [s EXCEPT !.c[e.c].last = e.ms]
         IN CASE e.k = "fail" -> [s2 EXCEPT !.c[e.c].over = TRUE, !.c[e.c].disc = TRUE, !.c[e.c].own = {}, !.c[e.c].ans = {}]
              [] e.k = "timeout" -> [s2 EXCEPT !.c[e.c].over = TRUE]
              [] stat -> [s2 EXCEPT !.c[e.c].own = {"stat"}, !.c[e.c].cut = TRUE, !.c[e.c].over = TRUE]
              [] full -> [s2 EXCEPT !.c[e.c].own = {"full"}, !.c[e.c].cut = TRUE, !.c[e.c].over = TRUE]
              [] OTHER -> [s2 EXCEPT !.c[e.c].q = @ \cup {e.r}, !.http = IF e.r.t = "http" THEN Note(@, key, e.ms) ELSE @]
    [] e.op = "breq" ->
         LET n == CHOOSE x \in Of(s, e.s) : TRUE IN
         IF e.r.t = "none" THEN [s EXCEPT !.c[n].told = "now", !.c[n].run = Put(@, e.n, e.r)]
         ELSE [s EXCEPT !.c[n].q = @ \ {e.r}, !.c[n].run = Put(@, e.n, e.r)]
    [] e.op = "bresp" ->
         LET f == {n \in DOMAIN s.c : e.n \in DOMAIN s.c[n].run} IN
         IF f = {} THEN s
         ELSE LET n == CHOOSE x \in f : TRUE
                  c == s.c[n]
                  q == c.run[e.n]
                  un == e.r.t = "none" /\ ~e.closed /\ q.t # "none"
                  a == IF c.disc \/ q.t = "none" THEN {} ELSE IF e.r.t # "none" THEN {[k |-> "is", r |-> e.r]} ELSE IF un THEN {[k |-> "un", r |-> q]} ELSE {}
              IN [s EXCEPT !.c[n].run = Del(@, e.n), !.c[n].ans = @ \cup a, !.c[n].shut = @ \/ e.closed \/ un,
                           !.c[n].told = IF q.t = "none" THEN "yes" ELSE @,
                           !.done = IF e.r.t # "none" THEN @ + 1 ELSE @]
    [] e.op = "sent" ->
         LET c == s.c[e.c] IN
         IF Own(c, e.r) = {}                      \* which are sent at once
         THEN LET x == CHOOSE y \in Ans(c, e.r) : TRUE IN
              [s EXCEPT !.c[e.c].ans = @ \ {x}, !.c[e.c].last = e.ms, !.sentn = IF x.k = "is" THEN @ + 1 ELSE @]
         ELSE [s EXCEPT !.c[e.c].own = {}, !.c[e.c].last = e.ms]
    [] e.op = "disc" -> [s EXCEPT !.c[e.c].disc = TRUE, !.c[e.c].ans = {}]
    [] e.op = "gone" -> [s EXCEPT !.c = Del(@, e.c)]
    [] e.op = "signal" -> IF e.k \in {"TERM", "USR1"} THEN [s EXCEPT !.sig = e.k] ELSE s
    [] e.op = "unlisten" -> [s EXCEPT !.heard = @ \ {e.a}]
    [] e.op = "returned" -> [s EXCEPT !.ret = TRUE]
    [] OTHER -> s
=============================================================================
