----------------------------- MODULE SessionOps -----------------------------
(* Sessions: the identity every part of the proxy keys its state by.         *)
(* The sequential meaning of the public operations, as a transition function *)
(* over observed events (used to judge recorded histories).                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* ---------------------------- 1. sequential ------------------------------ *)
(* state: slots  : slot -> [id, closed]   (session objects alive)            *)
(*        issued : set of ids ever issued                                    *)
(*        mapped : set of ids present in the session-keyed map               *)
SesStart == [slots |-> <<>>, issued |-> {}, mapped |-> {}]

Has(s, i) == i \in DOMAIN s.slots

SesAllowed(s, e) ==
  CASE e.op = "new"    -> e.id \notin s.issued /\ e.closed = FALSE
    [] e.op \in {"copy", "assign"} ->
         /\ e.id = s.slots[e.src].id
         /\ e.closed = s.slots[e.src].closed
    [] e.op = "close"  -> e.id = s.slots[e.slot].id /\ e.closed = TRUE
    [] e.op = "look"   -> /\ e.id = s.slots[e.slot].id
                          /\ e.closed = s.slots[e.slot].closed
    [] e.op = "cmp"    -> LET a == s.slots[e.slot].id
                              b == s.slots[e.src].id
                          IN e.eq = (a = b) /\ e.lt = (a < b) /\ e.gt = (b < a)
    [] e.op = "mcreate"  -> TRUE
    [] e.op = "mrelease" -> TRUE
    [] e.op = "mexist"   -> e.res = (s.slots[e.slot].id \in s.mapped)
    [] e.op = "bulk"   -> /\ e.made = e.distinct
                          /\ e.bornclosed = 0
                          /\ e.copydiff = 0
    [] OTHER -> FALSE

Put(f, k, v) == (k :> v) @@ f

SesApply(s, e) ==
  CASE e.op = "new" -> [s EXCEPT !.slots = Put(@, e.slot, [id |-> e.id, closed |-> FALSE]),
                                 !.issued = @ \cup {e.id}]
    [] e.op \in {"copy", "assign"} -> [s EXCEPT !.slots = Put(@, e.slot, s.slots[e.src])]
    [] e.op = "close" -> [s EXCEPT !.slots = Put(@, e.slot, [@[e.slot] EXCEPT !.closed = TRUE])]
    [] e.op = "mcreate" -> [s EXCEPT !.mapped = @ \cup {s.slots[e.slot].id}]
    [] e.op = "mrelease" -> [s EXCEPT !.mapped = @ \ {s.slots[e.slot].id}]
    [] OTHER -> s

=============================================================================
