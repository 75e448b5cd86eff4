------------------------------ MODULE CqlOps ------------------------------
(* The cql_rpn filter: CQL queries become RPN (p.reverse: RPN becomes CQL).   *)
(* p.index, p.relation, p.mod: attributes (type -> value) of what the         *)
(* configuration names; p.every: of every term; p.sets: the context sets.     *)
(* p.cql: what a text means, a tree of operators and terms.                   *)
(* Back: p.back (attributes and the index they make), p.rels (relation        *)
(* attribute -> text).                                                        *)
EXTENDS FiltBase

KStart == [p |-> [reverse |-> FALSE], ok |-> TRUE, cur |-> <<>>]

Give(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
(* attributes of type 1.. in f, and those of others in g *)
Under(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
Attrs(p, x) == Under(Give(p.mod, x.mod), Under(Give(p.index, x.set \o "." \o x.index), Under(Give(p.relation, x.rel), p.every)))
(* diagnostics for what a query may not be *)
RECURSIVE Faults(_, _)
Faults(p, x) ==
  CASE x.k = "bad" -> {<<108, "">>}
    [] x.k = "op" -> Faults(p, x.l) \cup Faults(p, x.r)
    [] x.k = "term" -> (IF x.set \notin Rng(p.sets) THEN {<<121, "">>}
                        ELSE IF (x.set \o "." \o x.index) \notin DOMAIN p.index THEN {<<114, x.index>>} ELSE {})
                       \cup (IF x.rel \notin DOMAIN p.relation THEN {<<117, x.shown>>} ELSE {})
RECURSIVE Rpn(_, _)
Rpn(p, x) == CASE x.k = "op" -> [k |-> "op", op |-> x.op, l |-> Rpn(p, x.l), r |-> Rpn(p, x.r)]
               [] x.k = "term" -> [k |-> "apt", tt |-> "general", term |-> x.codes, text |-> x.text, at |-> Attrs(p, x)]

(* ------------------------------------------------------------------- back *)
At(x, ty) == IF ty \in DOMAIN x.at THEN x.at[ty] ELSE ""
Fitting(p, x) == {i \in DOMAIN p.back : \A ty \in DOMAIN p.back[i].at : At(x, ty) = p.back[i].at[ty]}
RECURSIVE FaultsBack(_, _)
FaultsBack(p, x) ==
  CASE x.k = "op" -> FaultsBack(p, x.l) \cup FaultsBack(p, x.r)
    [] x.k = "set" -> {<<18, "">>}
    [] x.k = "apt" -> IF At(x, "1") # "" /\ Fitting(p, x) = {} THEN {<<114, At(x, "1")>>} ELSE {}
Shown(x) == LET q == IF x.term = <<>> \/ 32 \in Rng(x.term) THEN "\"" ELSE "" IN
            q \o (IF At(x, "5") \in {"2", "3"} THEN "*" ELSE "") \o x.text \o (IF At(x, "5") \in {"1", "3"} THEN "*" ELSE "") \o q
Index(p, x) == IF At(x, "1") = "" THEN "cql.serverChoice" ELSE p.back[CHOOSE i \in Fitting(p, x) : \A j \in Fitting(p, x) : i <= j].name
RelText(p, x) == IF At(x, "2") \in DOMAIN p.rels THEN p.rels[At(x, "2")] ELSE "="
RECURSIVE Cql(_, _)
Sub(p, x) == IF x.k = "op" THEN "(" \o Cql(p, x) \o ")" ELSE Cql(p, x)
Cql(p, x) ==
  IF x.k = "op" THEN Sub(p, x.l) \o " " \o x.op \o " " \o Sub(p, x.r)
  ELSE IF Index(p, x) = "cql.serverChoice" /\ RelText(p, x) = "=" THEN Shown(x)
  ELSE Index(p, x) \o " " \o RelText(p, x) \o " " \o Shown(x)

IsCql(r) == r.t = "search" /\ r.qk = "cql"
IsRpn(r) == r.t = "search" /\ r.qk = "rpn"
Bad(p, r) == IF IsCql(r) /\ ~p.reverse THEN Faults(p, p.cql[r.q])
             ELSE IF IsRpn(r) /\ p.reverse THEN FaultsBack(p, r.tree) ELSE {}
(* b is what r becomes *)
Becomes(p, r, b) ==
  IF IsCql(r) /\ ~p.reverse THEN b = [r EXCEPT !.qk = "rpn", !.q = b.q, !.tree = Rpn(p, p.cql[r.q])]
  ELSE IF IsRpn(r) /\ p.reverse THEN b = [r EXCEPT !.qk = "cql", !.q = "CQL " \o Cql(p, r.tree), !.tree = [k |-> "noRPN"]]
  ELSE b = r

KAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp"} -> e.op = "params" => e.p.ok = s.ok
    [] e.op = "live" -> e.n = 0
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" -> \/ Ended(e)
                        \/ /\ e.s \in DOMAIN s.cur
                           /\ LET c == s.cur[e.s] IN ~c.sent /\ c.r.t # "none" /\ Bad(s.p, c.r) = {} /\ Becomes(s.p, c.r, e.r)
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN
            IF c.r.t = "none" THEN e.r = None
            ELSE IF c.sent THEN e.r = c.last /\ e.closed = c.lastclosed
            ELSE /\ ~e.closed /\ Failed(e.r, "searchr") /\ e.r.ref = c.r.ref /\ e.r.kind = "nsd"
                 /\ <<e.r.diag, e.r.add>> \in Bad(s.p, c.r)
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

KApply(s, e) ==
  CASE e.op = "config" -> [s EXCEPT !.ok = e.ok]
    [] e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, sent |-> FALSE, last |-> None, lastclosed |-> FALSE])]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].sent = TRUE]
    [] e.op = "bresp" -> IF e.s \in DOMAIN s.cur THEN [s EXCEPT !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed] ELSE s
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s)]
    [] OTHER -> s
=============================================================================
