------------------------------ MODULE PoolOps ------------------------------
(* The thread pool as its user sees it.  queue: messages put and not seen to  *)
(* be handled yet; run: being handled; done: handled, result outstanding;     *)
(* over: result delivered, none to deliver, or cleaned up.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

PStart == [min |-> 0, max |-> 0, queue |-> <<>>, g |-> <<>>, run |-> {}, done |-> {}, over |-> {}, ask |-> 0,
           asked |-> {}, freed |-> {}, alive |-> FALSE, main |-> "idle"]
Max(a, b) == IF a > b THEN a ELSE b
Threads(s) == Max(s.min, s.max)
In(q) == {q[i] : i \in 1..Len(q)}
Pos(q, m) == CHOOSE i \in 1..Len(q) : q[i] = m
Without(q, S) == SelectSeq(q, LAMBDA x : x \notin S)
PerThread == 64

PAllowed(s, e) ==
  CASE e.op = "pool" -> ~s.alive
    [] e.op = "put" -> s.alive /\ s.main = "idle" /\ e.m \notin In(s.queue) \cup s.run \cup s.done \cup s.over
    \* taken out of the queue and not begun yet are at most as many as there are threads
    [] e.op = "putdone" -> s.main = "put" /\ Len(s.queue) <= (PerThread + 1) * Threads(s)
    [] e.op = "handle" -> /\ s.alive /\ e.m \in In(s.queue)
                          /\ Pos(s.queue, e.m) + Cardinality(s.run) <= Threads(s)
                          /\ e.t > 0
    [] e.op = "handled" -> e.m \in s.run
    [] e.op = "result" -> s.alive /\ e.m \in s.done /\ e.t = 0 /\ e.info
    [] e.op = "cleanup" -> s.alive /\ s.main = "idle"
    [] e.op = "ask" -> s.main = "cleanup" /\ e.m \in In(s.queue) \ s.asked
    [] e.op = "free" -> s.main = "cleanup" /\ e.m \in s.asked /\ s.g[e.m] = s.ask /\ e.m \notin s.freed
    \* what was to be cleaned up and was not asked for is in the hands of a thread
    [] e.op = "cleaned" -> /\ s.main = "cleanup"
                           /\ \A i \in 1..Len(s.queue) : s.g[s.queue[i]] = e.g => s.queue[i] \notin s.asked /\ i <= Threads(s)
    [] e.op = "drained" -> s.main = "idle" /\ s.queue = <<>> /\ s.run = {} /\ s.done = {}
    [] e.op = "info" -> e.total >= s.min /\ e.total <= Threads(s) /\ e.busy <= e.total /\ e.busy >= Cardinality(s.run)
    [] e.op = "destroy" -> s.alive
    [] e.op = "destroyed" -> s.run = {} /\ ~e.obs
    [] e.op = "fin" -> ~s.alive
    [] OTHER -> FALSE

PApply(s, e) ==
  CASE e.op = "pool" -> [s EXCEPT !.min = e.min, !.max = e.max, !.alive = TRUE]
    [] e.op = "put" -> [s EXCEPT !.queue = Append(@, e.m), !.g = (e.m :> e.g) @@ @, !.main = "put"]
    [] e.op = "putdone" -> [s EXCEPT !.main = "idle"]
    [] e.op = "handle" -> [s EXCEPT !.queue = Without(@, {e.m}), !.run = @ \cup {e.m}]
    [] e.op = "handled" -> [s EXCEPT !.run = @ \ {e.m}, !.done = IF e.null THEN @ ELSE @ \cup {e.m},
                                     !.over = IF e.null THEN @ \cup {e.m} ELSE @]
    [] e.op = "result" -> [s EXCEPT !.done = @ \ {e.m}, !.over = @ \cup {e.m}]
    [] e.op = "cleanup" -> [s EXCEPT !.main = "cleanup", !.ask = e.g, !.asked = {}]
    [] e.op = "ask" -> [s EXCEPT !.asked = @ \cup {e.m}]
    [] e.op = "free" -> [s EXCEPT !.queue = Without(@, {e.m}), !.over = @ \cup {e.m}, !.freed = @ \cup {e.m}]
    [] e.op = "cleaned" -> [s EXCEPT !.main = "idle"]
    [] e.op = "destroyed" -> [s EXCEPT !.alive = FALSE]
    [] OTHER -> s
=============================================================================
