------------------------------- MODULE AuthOps -------------------------------
(* The auth_simple filter: users, the databases and the targets they may use. *)
EXTENDS FiltBase

AStart == [p |-> [users |-> <<>>], user |-> <<>>, cur |-> <<>>]
Same(p, a, b) == LowS(p.names[a]) = LowS(p.names[b])
Has(p, list, x) == \E i \in 1..Len(list) : list[i] = "*" \/ Same(p, list[i], x)
(* of several lines for a user the last one counts; 0: no line *)
LineOf(q, u) == LET M == {i \in 1..Len(q) : q[i].u = u}
                IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : i >= j
Creds(p, r) == CASE r.auth = "open" -> p.open[r.open]
                 [] r.auth = "idpass" -> [u |-> r.user, pw |-> r.pass]
                 [] OTHER -> [u |-> "", pw |-> ""]
Pass(r) == [ok |-> TRUE, r |-> r]
Reject(t, code, add) == [ok |-> FALSE, t |-> t, code |-> code, add |-> add]

TargetsOf(p, u) == LET i == LineOf(p.targets, u) IN IF i = 0 THEN <<>> ELSE p.targets[i].ts
OnTargets(p, r) ==
  LET mine == TargetsOf(p, Creds(p, r).u)
      bad == {i \in 1..Len(r.vh) : ~Has(p, mine, r.vh[i])}
      left == SelectSeq(r.vh, LAMBDA v : Has(p, mine, v))
  IN IF bad # {} /\ ~p.discard THEN Reject("initr", 236, r.vh[CHOOSE i \in bad : \A j \in bad : i <= j])
     ELSE IF left = <<>> THEN Reject("initr", 236, "all databases")
     ELSE Pass([r EXCEPT !.vh = left])
OnInit(p, r) ==
  LET c == Creds(p, r)  i == LineOf(p.users, c.u) IN
  IF p.gotu /\ c.u = "" THEN Reject("initr", 1014, "no credentials supplied")
  ELSE IF p.gotu /\ (i = 0 \/ p.users[i].pw # c.pw) THEN Reject("initr", 1014, "username/password combination rejected")
  ELSE IF p.gott THEN OnTargets(p, r) ELSE Pass(r)
OnDbs(p, u, r, t) ==
  LET ok == p.users[LineOf(p.users, u)].dbs
      bad == {i \in 1..Len(r.dbs) : ~Has(p, ok, r.dbs[i])}
  IN IF bad = {} THEN Pass(r) ELSE Reject(t, 236, r.dbs[CHOOSE i \in bad : \A j \in bad : i <= j])
(* what becomes of a request *)
Fate(s, x, r) ==
  CASE r.t = "init" -> OnInit(s.p, r)
    [] r.t = "search" /\ x \in DOMAIN s.user -> OnDbs(s.p, s.user[x], r, "searchr")
    [] r.t = "scan" /\ x \in DOMAIN s.user -> OnDbs(s.p, s.user[x], r, "scanr")
    [] OTHER -> Pass(r)

AAllowed(s, e) ==
  CASE e.op = "config" -> e.ok
    [] e.op = "params" -> TRUE
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" -> IF Ended(e) THEN TRUE
                        ELSE /\ e.s \in DOMAIN s.cur /\ ~s.cur[e.s].sent
                             /\ s.cur[e.s].fate.ok /\ e.r = s.cur[e.s].fate.r
    [] e.op = "bresp" -> TRUE
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN
            IF c.r.t = "none" THEN e.r = None
            ELSE IF c.fate.ok THEN c.sent /\ e.r = c.last /\ e.closed = c.lastclosed
            ELSE ~c.sent /\ DiagIs(e.r, c.fate.t, c.r.ref, c.fate.code, c.fate.add) /\ Failed(e.r, c.fate.t) /\ e.closed
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

AApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, fate |-> Fate(s, e.s, e.r), sent |-> FALSE,
                                                       last |-> None, lastclosed |-> FALSE]),
                                  !.user = IF s.p.gotu /\ e.r.t = "init" /\ OnInit([s.p EXCEPT !.gott = FALSE], e.r).ok
                                           THEN Put(@, e.s, Creds(s.p, e.r).u) ELSE @]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].sent = TRUE]
    [] e.op = "bresp" -> [s EXCEPT !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed]
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s)]
    [] OTHER -> s
=============================================================================
