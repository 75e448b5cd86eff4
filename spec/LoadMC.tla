------------------------------- MODULE LoadMC -------------------------------
(* All interleavings of a few sessions over two targets: what the filter      *)
(* counts is what is open, and it evens out.                                  *)
EXTENDS LoadOps
CONSTANTS MaxReq, Sess
VARIABLES st, k, w
Vh == {<<"a", "b">>, <<"b">>, <<"", "a">>, <<>>}
Reqs == {[t |-> "init", ref |-> "", vh |-> v] : v \in Vh} \cup {[t |-> x, ref |-> ""] : x \in {"search", "close"}} \cup {None}
No == [t |-> "initr", ref |-> "", ok |-> FALSE, diag |-> 2, add |-> "load_balance: no available targets"]
Ev == UNION {
  {[op |-> "creq", s |-> x, closed |-> r.t = "none", r |-> r] : x \in Sess, r \in Reqs},
  {[op |-> "breq", s |-> x, closed |-> FALSE, r |-> st.cur[x].r] : x \in {y \in (DOMAIN st.cur) \ w : st.cur[y].r.t \notin {"init", "none"}}},
  {[op |-> "breq", s |-> x, closed |-> TRUE, r |-> None] : x \in {y \in (DOMAIN st.cur) \ w : st.cur[y].r.t = "none"}},
  {[op |-> "breq", s |-> x, closed |-> FALSE, r |-> [st.cur[x].r EXCEPT !.vh = <<v>>]] : x \in {y \in (DOMAIN st.cur) \ w : st.cur[y].r.t = "init"}, v \in {"a", "b"}},
  {[op |-> "bresp", s |-> x, closed |-> c, r |-> [t |-> "ok"]] : x \in w, c \in BOOLEAN},
  {[op |-> "cresp", s |-> x, closed |-> c, r |-> r] : x \in (DOMAIN st.cur) \ w, c \in BOOLEAN, r \in {No, [t |-> "ok"], None}}}
Init == st = LStart /\ k = 0 /\ w = {}
Next == \E e \in Ev :
  /\ LAllowed(st, e)
  /\ e.op = "creq" => k < MaxReq
  /\ st' = LApply(st, e)
  /\ k' = IF e.op = "creq" THEN k + 1 ELSE k
  /\ w' = CASE e.op = "breq" /\ ~e.closed -> w \cup {e.s} [] e.op = "bresp" -> w \ {e.s} [] OTHER -> w
Spec == Init /\ [][Next]_<<st, k, w>>
Targets == {"a", "b"}
(* the record of a target without sessions is clean; nothing is counted twice *)
Clean == \A t \in Targets : /\ SessionsAt(st, t) = 0 => Cost(st, t) = 0
                            /\ SessionsAt(st, t) + PackagesAt(st, t) <= 2 * Cardinality(DOMAIN st.sess)
Quiet == (DOMAIN st.cur = {} /\ DOMAIN st.sess = {}) => \A t \in Targets : Cost(st, t) = 0
Answered == \A x \in (DOMAIN st.cur) \ w : \E e \in Ev : e.s = x /\ e.op \in {"breq", "cresp"} /\ LAllowed(st, e)
(* with both targets open to all and working, sessions spread evenly          *)
=============================================================================
