------------------------------ MODULE RouterOps ------------------------------
(* Routers, route positions and packages.                                    *)
(*                                                                           *)
(* A router is a set of named routes (a chain has exactly one), each a       *)
(* sequence of filters.  A position is a place in one route; moving it       *)
(* yields the filter there and steps past it; moving it to a named route     *)
(* goes to the start of that route first.  A package owns a position of its  *)
(* own; moving the package hands that same package to the filter.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == "-"          \* "no filter"
NoRoute == "?none"   \* route of a package without a router

(* route table from a sequence of <<name, sequence of filters>> *)
TableOf(rs) == [n \in {rs[i][1] : i \in 1..Len(rs)} |->
                  (rs[CHOOSE i \in 1..Len(rs) : rs[i][1] = n])[2]]

RtStart(kind, rs, start) ==
  [kind |-> kind, routes |-> TableOf(rs), start |-> start,
   pos  |-> <<>>,      \* handle -> position
   pk   |-> <<>>,      \* package -> [pos, log, req, resp, ses]
   logs |-> <<>>,      \* log number -> text
   stack |-> <<>>,     \* filters being executed: <<package, filter>>
   pend |-> <<>>]      \* <<package, filter that must be entered or None>>

PosAt(r, i) == [r |-> r, i |-> i]
StartPos(s) == PosAt(s.start, 1)

(* where a move takes a position: [p |-> new position, f |-> filter] *)
StepPos(s, p, route) ==
  IF s.kind = "flexml" /\ route # "" /\ route \notin DOMAIN s.routes
  THEN [p |-> p, f |-> None]               \* no such route: nothing happens
  ELSE LET q == IF s.kind = "flexml" /\ route # "" THEN PosAt(route, 1) ELSE p
       IN IF q.r = NoRoute \/ q.i > Len(s.routes[q.r])
          THEN [p |-> q, f |-> None]
          ELSE [p |-> PosAt(q.r, q.i + 1), f |-> s.routes[q.r][q.i]]

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* the moment between a move and its consequence allows only the consequence *)
Quiet(s) == s.pend = <<>>

RtAllowed(s, e) ==
  CASE e.op = "pos"    -> Quiet(s)
    [] e.op = "clone"  -> Quiet(s) /\ e.p \in DOMAIN s.pos
    [] e.op = "drop"   -> Quiet(s) /\ e.p \in DOMAIN s.pos
    [] e.op = "move"   -> /\ Quiet(s) /\ e.p \in DOMAIN s.pos
                          /\ e.res = StepPos(s, s.pos[e.p], e.route).f
    [] e.op \in {"pkg", "router"} -> Quiet(s)
    [] e.op \in {"copy", "croute"} -> Quiet(s) /\ e.k \in DOMAIN s.pk /\ e.m \in DOMAIN s.pk
    [] e.op = "pmove"  -> Quiet(s) /\ e.k \in DOMAIN s.pk
    [] e.op = "enter"  -> s.pend = <<e.k, e.f>> /\ e.f # None
    [] e.op = "pret"   -> s.pend = <<e.k, None>>
    [] e.op = "leave"  -> /\ Quiet(s) /\ Len(s.stack) > 0
                          /\ s.stack[Len(s.stack)] = <<e.k, e.f>>
    [] e.op \in {"logen", "logw", "log", "setreq", "setresp", "close"} -> Quiet(s) /\ e.k \in DOMAIN s.pk
    [] e.op = "logreset" -> LET l == s.pk[e.k].log IN
                            IF l = 0 THEN e.had = FALSE
                            ELSE e.had = TRUE /\ e.txt = s.logs[l]
    [] e.op = "look"   -> /\ Quiet(s)
                          /\ e.req = s.pk[e.k].req
                          /\ e.resp = s.pk[e.k].resp
                          /\ e.closed = s.pk[e.k].closed
                          /\ e.ses = e.k
    [] OTHER -> FALSE

AddLog(s, k, txt) ==
  LET l == s.pk[k].log IN
  IF l = 0 THEN s ELSE [s EXCEPT !.logs = Put(@, l, @[l] \o txt)]

RtApply(s, e) ==
  CASE e.op = "pos"   -> [s EXCEPT !.pos = Put(@, e.p, StartPos(s))]
    [] e.op = "clone" -> [s EXCEPT !.pos = Put(@, e.q, s.pos[e.p])]
    [] e.op = "drop"  -> [s EXCEPT !.pos = Del(@, e.p)]
    [] e.op = "move"  -> [s EXCEPT !.pos = Put(@, e.p, StepPos(s, s.pos[e.p], e.route).p)]
    [] e.op = "pkg"   -> [s EXCEPT !.pk = Put(@, e.k,
                            [pos |-> PosAt(NoRoute, 1), log |-> 0, req |-> "", resp |-> "",
                             closed |-> FALSE])]
    [] e.op = "router" -> [s EXCEPT !.pk = Put(@, e.k, [@[e.k] EXCEPT !.pos = StartPos(s)])]
    [] e.op = "copy"  -> [s EXCEPT !.pk = Put(@, e.m, [@[e.m] EXCEPT !.pos = s.pk[e.k].pos,
                                                                    !.log = s.pk[e.k].log])]
    [] e.op = "croute" -> [s EXCEPT !.pk = Put(@, e.m, [@[e.m] EXCEPT !.pos = s.pk[e.k].pos])]
    [] e.op = "pmove" ->
         IF s.pk[e.k].pos.r = NoRoute
         THEN [s EXCEPT !.pend = <<e.k, None>>]
         ELSE LET w == StepPos(s, s.pk[e.k].pos, e.route)
              IN [s EXCEPT !.pk = Put(@, e.k, [@[e.k] EXCEPT !.pos = w.p]),
                           !.pend = <<e.k, w.f>>]
    [] e.op = "enter" -> [s EXCEPT !.pend = <<>>, !.stack = Append(@, <<e.k, e.f>>)]
    [] e.op = "leave" -> [s EXCEPT !.pend = <<e.k, None>>,
                                   !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] e.op = "pret"  -> [s EXCEPT !.pend = <<>>]
    [] e.op = "logen" -> LET n == Cardinality(DOMAIN s.logs) + 1
                         IN [s EXCEPT !.logs = Put(@, n, ""),
                                      !.pk = Put(@, e.k, [@[e.k] EXCEPT !.log = n])]
    [] e.op = "logw"  -> AddLog(s, e.k, e.txt)
    [] e.op = "log"   -> AddLog(s, e.k, e.mod \o " " \o e.txt \o "\n")
    [] e.op = "logreset" -> [s EXCEPT !.pk = Put(@, e.k, [@[e.k] EXCEPT !.log = 0])]
    [] e.op = "setreq"  -> [s EXCEPT !.pk = Put(@, e.k, [@[e.k] EXCEPT !.req = e.txt])]
    [] e.op = "setresp" -> [s EXCEPT !.pk = Put(@, e.k, [@[e.k] EXCEPT !.resp = e.txt])]
    [] e.op = "close"  -> [s EXCEPT !.pk = Put(@, e.k, [@[e.k] EXCEPT !.closed = TRUE])]
    [] OTHER -> s
=============================================================================
