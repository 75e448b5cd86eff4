------------------------------ MODULE ClientMC ------------------------------
(* All histories of a few sessions and requests that ClientOps allows: no      *)
(* request waits for ever, answers reach the request they answer, limits are   *)
(* kept, and connections do not outlive their sessions.                        *)
EXTENDS ClientOps
CONSTANTS Sessions, MaxQ, MaxC, Full
VARIABLES s, now, n, nc, front, at
(* front: what the client side knows of a session; at: requests a target has   *)
vars == <<s, now, n, nc, front, at>>

Req(t, q) == CASE t = "none" -> None
               [] t = "init" -> [t |-> "init", ref |-> q, vh |-> <<>>, oi |-> "", cs |-> "", opts |-> <<>>]
               [] t = "trigger" -> [t |-> "trigger", ref |-> q]
               [] OTHER -> [t |-> t, ref |-> q, kind |-> "none"]
Answer(r) == CASE r.t = "init" -> [t |-> "initr", ref |-> r.ref, diag |-> 0]
               [] r.t = "close" -> [t |-> "close", ref |-> r.ref, reason |-> 0, msg |-> ""]
               [] OTHER -> [t |-> "searchr", ref |-> r.ref, kind |-> "nsd", add |-> ""]
P == [ct : {1}, it : {1}, gt : {2}, mt : {1}, max : {0, 1}, omax : {0}, force : BOOLEAN, ip : {FALSE}, bind : {FALSE}, cs : {""},
      deflt : {"h"}, forced : {""}, peer : {""}, mine : {""}, optorder : {<<>>}]
Init == /\ \E p \in P : s = [ZcStart EXCEPT !.p = p]
        /\ now = 0 /\ n = 0 /\ nc = 0 /\ at = <<>>
        /\ front = [x \in Sessions |-> "up"]
Do(e) == IF ZcAllowed(s, e) THEN s' = ZcApply(s, e) ELSE FALSE
Ev(op, q, k) == [op |-> op, q |-> q, s |-> k, ms |-> now]
Kinds == IF Full THEN {"init", "search", "trigger"} ELSE {"init", "search"}
Ask == /\ n < MaxQ
       /\ \E k \in Sessions : \E t \in Kinds \cup {"none"} :
            /\ front[k] = "up" \/ (front[k] = "closing" /\ t = "none")
            /\ t = "none" => Of(s, k) = {}
            (* room is left for the ends of the other sessions *)
            /\ t # "none" => n + 1 + Cardinality({x \in Sessions : front[x] # "end"}) <= MaxQ
            /\ Do(Ev("creq", n + 1, k) @@ [r |-> Req(t, n + 1), closed |-> t = "none"])
            /\ front' = IF t = "none" THEN [front EXCEPT ![k] = "end"] ELSE front
       /\ n' = n + 1 /\ UNCHANGED <<now, nc, at>>
Connect == /\ nc < MaxC
           /\ \E q \in DOMAIN s.rq, how \in {"ok", "refuse"} :
                Do(Ev("conn", q, 100 + nc) @@ [a |-> "h", how |-> how])
           /\ nc' = nc + 1 /\ UNCHANGED <<now, n, front, at>>
Send == \E q \in DOMAIN s.rq :
  LET x == s.rq[q] IN
  \/ /\ Known(s, x.s)
     /\ \E r \in {OutReq(s.p, x.r, TRUE), OutReq(s.p, x.r, FALSE), Bye} :
          /\ Do(Ev("breq", q, s.cl[x.s].c) @@ [bk |-> "h", closed |-> FALSE, r |-> r])
          /\ at' = IF r.t = "trigger" THEN at ELSE Put(at, s.cl[x.s].c, r)
     /\ UNCHANGED <<now, n, nc, front>>
  \/ /\ Do(Ev("breq", q, x.s) @@ [bk |-> "b", closed |-> x.end, r |-> x.r])
     /\ UNCHANGED <<now, n, nc, front, at>>
Deliver == \E q \in DOMAIN s.rq :
  LET x == s.rq[q]  c == s.cl[x.s].c IN
  /\ Known(s, x.s) /\ s.cl[x.s].open
  /\ \/ Do(Ev("deliver", q, c) @@ [k |-> "connect", r |-> None]) /\ at' = at
     \/ Do(Ev("deliver", q, c) @@ [k |-> "fail", r |-> None]) /\ at' = at
     \/ c \in DOMAIN at /\ Do(Ev("deliver", q, c) @@ [k |-> "recv", r |-> Answer(at[c])]) /\ at' = Del(at, c)
  /\ UNCHANGED <<now, n, nc, front>>
Disc == \E k \in DOMAIN s.cl : Do(Ev("disc", 0, s.cl[k].c)) /\ UNCHANGED <<now, n, nc, front, at>>
Reply == \E q \in DOMAIN s.rq :
  LET x == s.rq[q] IN
  \E r \in {x.out, None, Close(x.r, 6, "First PDU was not an Initialize Request"), Close(x.r, 7, ""), Close(x.r, 8, "")}
       \cup (IF x.r.t = "init" THEN {[t |-> "initr", ok |-> FALSE, ref |-> x.r.ref, diag |-> 2, add |-> "z3950_client: max sessions"]} ELSE {}) :
    \E closed \in BOOLEAN :
      /\ Do(Ev("cresp", q, x.s) @@ [r |-> r, closed |-> closed])
      /\ front' = IF closed /\ front[x.s] = "up" THEN [front EXCEPT ![x.s] = "closing"] ELSE front
      /\ UNCHANGED <<now, n, nc, at>>
(* nobody is kept waiting by others than the clock *)
Idle == \A q \in DOMAIN s.rq : LET x == s.rq[q] IN
          CASE x.st \in {"conn", "sent"} -> now + 1000 - x.t <= Bounds(s, q)[2]
            [] x.st = "start" -> IF Waits(s, q) THEN x.full /\ now + 1000 - x.at <= s.p.mt * 1000
                                 ELSE Known(s, x.s) /\ ~Free(s, x.s)
            [] OTHER -> FALSE
Tick == Idle /\ DOMAIN s.rq # {} /\ now' = now + 1000 /\ UNCHANGED <<s, n, nc, front, at>>
Rest == s.rq = <<>> /\ UNCHANGED vars
Next == Ask \/ Connect \/ Send \/ Deliver \/ Disc \/ Reply \/ Tick \/ Rest
Spec == Init /\ [][Next]_vars

OneAtATime == \A k \in DOMAIN s.cl : Cardinality({q \in Of(s, k) : s.rq[q].st \in {"conn", "ready", "sent"}}) <= 1
Limit == s.p.max # 0 => Cardinality({k \in DOMAIN s.cl : s.cl[k].open}) <= s.p.max
Own == \A q \in DOMAIN s.rq : s.rq[q].st = "done" /\ s.rq[q].out # None => s.rq[q].out.ref = q
Soon == \A q \in DOMAIN s.rq : now - s.rq[q].at <= 1000 * (s.p.ct + s.p.it + s.p.mt + MaxQ * s.p.gt)
AllEnd == (\A k \in Sessions : front[k] = "end") /\ s.rq = <<>> => \A k \in DOMAIN s.cl : ~s.cl[k].open
=============================================================================
