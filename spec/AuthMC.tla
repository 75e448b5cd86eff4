------------------------------- MODULE AuthMC -------------------------------
(* All behaviours of two client sessions against every kind of configuration. *)
EXTENDS AuthOps
CONSTANT MaxReq
VARIABLES st, k, w, seen   \* w: sessions whose request is at the back end; seen: <<user, database or target, configuration>> that got there
N == [A |-> <<65>>, a |-> <<97>>, B |-> <<66>>, h |-> <<104>>, H |-> <<72>>, i |-> <<105>>] @@ ("*" :> <<42>>)
Cfg(u, t, d) == [gotu |-> u, gott |-> t, discard |-> d, names |-> N,
  users |-> << [u |-> "u", pw |-> "x", dbs |-> <<"A">>], [u |-> "u", pw |-> "p", dbs |-> <<"A">>], [u |-> "v", pw |-> "p", dbs |-> <<"*">>] >>,
  targets |-> << [u |-> "u", ts |-> <<"h">>], [u |-> "v", ts |-> <<"*">>] >>, open |-> [none |-> [u |-> "u", pw |-> "p"]]]
IR(u, pw, vh) == [t |-> "init", ref |-> "", auth |-> "idpass", open |-> "", user |-> u, pass |-> pw, vh |-> vh]
Reqs == {IR(u, pw, vh) : u \in {"", "u", "v", "w"}, pw \in {"p", "x"}, vh \in {<<>>, <<"H">>, <<"i", "h">>}}
        \cup {[t |-> "search", ref |-> "", dbs |-> d] : d \in {<<"a">>, <<"B">>, <<"A", "B">>}} \cup {[t |-> "scan", ref |-> "", dbs |-> <<"B">>]}
        \cup {[t |-> "present", ref |-> ""]}
Rej == {[t |-> "initr", ref |-> "", ok |-> FALSE, diag |-> c, add |-> a] : c \in {1014, 236}, a \in {"no credentials supplied", "username/password combination rejected", "all databases", "i", "H", "h"}}
       \cup {[t |-> "searchr", ref |-> "", status |-> 0, hits |-> 0, diag |-> 236, add |-> a] : a \in {"A", "a", "B"}}
       \cup {[t |-> "scanr", ref |-> "", status |-> 6, diag |-> 236, add |-> "B"]}
R0 == [t |-> "x"]
Ev == UNION {
  {[op |-> "creq", s |-> x, closed |-> FALSE, r |-> r] : x \in 1..2, r \in Reqs},
  {[op |-> "breq", s |-> x, closed |-> FALSE, r |-> st.cur[x].r] : x \in DOMAIN st.cur},
  {[op |-> "breq", s |-> x, closed |-> FALSE, r |-> [st.cur[x].r EXCEPT !.vh = <<"h">>]] : x \in {y \in DOMAIN st.cur : st.cur[y].r.t = "init"}},
  {[op |-> "bresp", s |-> x, closed |-> c, r |-> R0] : x \in w, c \in BOOLEAN},
  {[op |-> "cresp", s |-> x, closed |-> c, r |-> r] : x \in (DOMAIN st.cur) \ w, c \in BOOLEAN, r \in Rej \cup {R0}}}
Init == \E u, t, d \in BOOLEAN : (u \/ t) /\ st = [AStart EXCEPT !.p = Cfg(u, t, d)] /\ k = 0 /\ w = {} /\ seen = {}
What(e) == CASE e.r.t \in {"search", "scan"} /\ e.s \in DOMAIN st.user -> {<<st.user[e.s], "db", d>> : d \in Rng(e.r.dbs)}
             [] e.r.t = "init" -> {<<e.r.user, "init", e.r.pass>>} \cup {<<e.r.user, "vh", v>> : v \in Rng(e.r.vh)}
             [] OTHER -> {}
Next == \E e \in Ev :
  /\ AAllowed(st, e)
  /\ e.op = "creq" => k < MaxReq
  /\ st' = AApply(st, e)
  /\ k' = IF e.op = "creq" THEN k + 1 ELSE k
  /\ w' = CASE e.op = "breq" -> w \cup {e.s} [] e.op = "bresp" -> w \ {e.s} [] OTHER -> w
  /\ seen' = IF e.op = "breq" THEN seen \cup What(e) ELSE seen
Spec == Init /\ [][Next]_<<st, k, w, seen>>
(* nobody gets in without a password of the register, to a database or target *)
(* that is not his own; every request is answered                             *)
Guarded == \A x \in seen :
  /\ (st.p.gotu /\ x[2] = "init") => (x[3] = "p" /\ x[1] \in {"u", "v"})
  /\ x[2] = "db" => (x[1] = "v" \/ x[3] \in {"A", "a"})
  /\ (st.p.gott /\ x[2] = "vh") => (x[1] = "v" \/ (x[1] = "u" /\ x[3] \in {"h", "H"}))
Answered == \A x \in (DOMAIN st.cur) \ w : \E e \in Ev : e.s = x /\ e.op \in {"breq", "cresp"} /\ AAllowed(st, e)
=============================================================================
