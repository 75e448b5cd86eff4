----------------------------- MODULE RouterGen -----------------------------
(* Behaviours of routers, positions and packages, printed as scripts; also   *)
(* model checked for the independence and order properties.                  *)
EXTENDS RouterOps, Json
CONSTANTS Kind, Names, Filters, Unknown, Handles, Packages, MaxLen, Depth, Mode
\* Mode: "pos" positions only, "pkg" packages only, "log" packages with logs
VARIABLES cfg, s, hist, seen
\* cfg  : sequence of <<route name, filters>> under construction
\* seen : handle -> filters the handle has yielded since it last entered a route
vars == <<cfg, s, hist, seen>>

StartName == "start"
AllNames == IF Kind = "chain" THEN {StartName} ELSE Names \cup {StartName}

GInit == /\ cfg = <<>>
         /\ s = RtStart(Kind, <<>>, StartName)
         /\ hist = <<>>
         /\ seen = <<>>

Defined == {cfg[i][1] : i \in 1..Len(cfg)}
Seqs == UNION {[1..n -> Filters] : n \in 0..MaxLen}

AddRoute == /\ hist = <<>> /\ DOMAIN s.routes = {}
            /\ \E n \in AllNames \ Defined, n2 \in 0..MaxLen :
                 \E q \in [1..n2 -> Filters] : cfg' = Append(cfg, <<n, q>>)
            /\ UNCHANGED <<s, hist, seen>>
Ready == /\ hist = <<>> /\ StartName \in Defined /\ DOMAIN s.routes = {}
         /\ s' = RtStart(Kind, cfg, StartName)
         /\ UNCHANGED <<cfg, hist, seen>>

Event(e, script) == /\ RtAllowed(s, e)
                    /\ s' = RtApply(s, e)
                    /\ hist' = Append(hist, script)
                    /\ cfg' = cfg

(* long behaviours walk along routes more often than they change route *)
RouteArgs == IF Depth > 10 /\ Len(hist) % 3 # 0 THEN {""}
             ELSE {""} \cup Names \cup Unknown \cup {StartName}

PosStep ==
  \/ \E h \in Handles :
       /\ Event([op |-> "pos", p |-> h], <<"pos", h>>)
       /\ seen' = Put(seen, h, <<>>)
  \/ \E h \in DOMAIN s.pos : \E g \in Handles \ {h} :
       /\ Event([op |-> "clone", p |-> h, q |-> g], <<"clone", h, g>>)
       /\ seen' = Put(seen, g, seen[h])
  \/ \E h \in DOMAIN s.pos :
       /\ Event([op |-> "drop", p |-> h], <<"drop", h>>)
       /\ seen' = Del(seen, h)
  \/ \E h \in DOMAIN s.pos, r \in RouteArgs :
       LET w == StepPos(s, s.pos[h], r)
           known == s.kind = "flexml" /\ r \in DOMAIN s.routes
       IN /\ Event([op |-> "move", p |-> h, route |-> r, res |-> w.f], <<"move", h, r>>)
          /\ seen' = Put(seen, h, (IF known THEN <<>> ELSE seen[h])
                                  \o (IF w.f = None THEN <<>> ELSE <<w.f>>))

PkgCalm == Quiet(s)
PkgStep ==
  /\ UNCHANGED seen
  /\ \/ \E k \in Packages : /\ PkgCalm /\ s.stack = <<>> /\ k \notin DOMAIN s.pk
                            /\ Event([op |-> "pkg", k |-> k], <<"pkg", k>>)
     \/ \E k \in DOMAIN s.pk : Event([op |-> "router", k |-> k], <<"router", k>>)
     \/ \E k \in DOMAIN s.pk : \E m \in DOMAIN s.pk \ {k} :
          /\ s.pk[k].pos.r # NoRoute
          /\ \/ Event([op |-> "copy", k |-> k, m |-> m], <<"copy", k, m>>)
             \/ Event([op |-> "croute", k |-> k, m |-> m], <<"croute", k, m>>)
     \/ \E k \in DOMAIN s.pk, r \in RouteArgs :
          Event([op |-> "pmove", k |-> k, route |-> r], <<"pmove", k, r>>)
     \/ \E k \in DOMAIN s.pk :
          \/ Event([op |-> "setreq", k |-> k, txt |-> "x"], <<"setreq", k, "q" \o ToString(Len(hist))>>)
          \/ Event([op |-> "setresp", k |-> k, txt |-> "x"], <<"setresp", k, "a" \o ToString(Len(hist))>>)
          \/ Event([op |-> "close", k |-> k], <<"close", k>>)
          \/ PkgCalm /\ s' = s /\ cfg' = cfg /\ hist' = Append(hist, <<"look", k>>)
     \/ /\ s.pend # <<>> /\ s.pend[2] # None
        /\ s' = RtApply(s, [op |-> "enter", k |-> s.pend[1], f |-> s.pend[2]])
        /\ UNCHANGED <<cfg, hist>>
     \/ /\ s.pend # <<>> /\ s.pend[2] = None
        /\ s' = RtApply(s, [op |-> "pret", k |-> s.pend[1]])
        /\ UNCHANGED <<cfg, hist>>
     \/ /\ PkgCalm /\ s.stack # <<>>
        /\ LET top == s.stack[Len(s.stack)] IN
           Event([op |-> "leave", k |-> top[1], f |-> top[2]], <<"ret">>)
LogStep ==
  /\ UNCHANGED seen
  /\ \E k \in DOMAIN s.pk :
       \/ Event([op |-> "logen", k |-> k], <<"logen", k>>)
       \/ Event([op |-> "logw", k |-> k, txt |-> "w"], <<"logw", k, "w" \o ToString(Len(hist))>>)
       \/ Event([op |-> "log", k |-> k, mod |-> "m", txt |-> "t"], <<"log", k, "m", "t" \o ToString(Len(hist))>>)
       \/ /\ PkgCalm
          /\ s' = RtApply(s, [op |-> "logreset", k |-> k])
          /\ hist' = Append(hist, <<"logreset", k>>) /\ cfg' = cfg

GNext == IF Len(hist) = Depth
         THEN PrintT(<<"GEN", ToJson([routes |-> cfg, ops |-> hist])>>) /\ FALSE
         ELSE \/ AddRoute \/ Ready
              \/ /\ DOMAIN s.routes # {}
                 /\ \/ Mode = "pos" /\ PosStep
                    \/ Mode \in {"pkg", "log"} /\ PkgStep
                    \/ Mode = "log" /\ LogStep
GSpec == GInit /\ [][GNext]_vars

(* What a position has yielded is exactly the part of its route before it:   *)
(* every filter once, in order, whatever other positions did meanwhile.      *)
InOrder == \A h \in DOMAIN s.pos : seen[h] = SubSeq(s.routes[s.pos[h].r], 1, s.pos[h].i - 1)
(* A step on one position leaves all others where they were. *)
Independent == [][\A h \in DOMAIN s.pos :
                    (h \in DOMAIN s'.pos /\ s'.pos[h] # s.pos[h])
                    => \/ hist'[Len(hist')] [2] = h
                       \/ hist'[Len(hist')] [1] = "clone" /\ hist'[Len(hist')] [3] = h]_vars
=============================================================================
