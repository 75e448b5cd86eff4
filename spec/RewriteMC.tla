------------------------------ MODULE RewriteMC ------------------------------
(* Two clients, all queries of up to three terms, and all chains of up to two *)
(* rules with every pair of character sets.                                   *)
EXTENDS RewriteOps
CONSTANTS MaxReq, Depth
VARIABLES st, k
Terms == {<<97>>, <<195, 165>>, <<229>>, <<226, 130, 172>>}
Apt == {[k |-> "apt", a |-> a, tt |-> "general", term |-> b] : a \in {<<>>, <<<<"", 1, "4">>>>}, b \in Terms}
Leaf == Apt \cup {[k |-> "set", name |-> "A"]}
RECURSIVE Trees(_)
Trees(n) == IF n = 0 THEN Leaf ELSE LET T == Trees(n - 1) IN T \cup {[k |-> "op", op |-> o, l |-> x, r |-> y] : o \in {"and"}, x \in T, y \in Leaf}
RuleSet == {[k |-> "id"], [k |-> "map", m |-> ("4" :> "5")], [k |-> "drop", n |-> 1], [k |-> "upper"], [k |-> "swap"], [k |-> "left"],
            [k |-> "and", t |-> [k |-> "set", name |-> "B"]], [k |-> "noterm"], [k |-> "text"]}
Chains == {<<>>} \cup {<<x>> : x \in RuleSet} \cup {<<x, y>> : x, y \in RuleSet}
Sets == {"UTF-8", "ISO-8859-1", ""}
Init == st = QStart /\ k = 0
Q(t) == [t |-> "search", ref |-> "s", tree |-> t]
Fail == [t |-> "searchr", ref |-> "s", hits |-> 0, status |-> 0, kind |-> "nsd", diag |-> 1, add |-> "x"]
Good == [t |-> "searchr", ref |-> "s", hits |-> 1, status |-> 1, kind |-> "none", diag |-> 0, add |-> ""]
Next ==
  \/ st.p.rules = <<>> /\ st.p.from = "" /\ k = 0 /\ \E c \in Chains, f \in Sets, t \in Sets :
       st' = QApply(st, [op |-> "params", p |-> [rules |-> c, from |-> f, to |-> t]]) /\ k' = 1
  \/ k \in 1..MaxReq /\ \E x \in {1, 2} \ DOMAIN st.cur, t \in Trees(Depth) :
       st' = QApply(st, [op |-> "creq", s |-> x, closed |-> FALSE, r |-> Q(t)]) /\ k' = k + 1
  \/ \E x \in DOMAIN st.cur : st.cur[x].ask.t # "fail" /\
       LET e == [op |-> "breq", s |-> x, closed |-> FALSE, r |-> st.cur[x].ask] IN QAllowed(st, e) /\ k' = k
         /\ st' = QApply(QApply(st, e), [op |-> "bresp", s |-> x, closed |-> FALSE, r |-> Good])
  \/ \E x \in DOMAIN st.cur, r \in {Fail, Good} :
       LET e == [op |-> "cresp", s |-> x, closed |-> FALSE, r |-> r] IN QAllowed(st, e) /\ st' = QApply(st, e) /\ k' = k
Spec == Init /\ [][Next]_<<st, k>>
(* a request is sent or refused, not both *)
OneWay == \A x \in DOMAIN st.cur : (st.cur[x].ask.t = "fail" => ~st.cur[x].sent)
                                   /\ (st.cur[x].ask.t = "fail") = QAllowed(st, [op |-> "cresp", s |-> x, closed |-> FALSE, r |-> Fail])
RECURSIVE TermsOf(_)
TermsOf(t) == CASE t.k = "op" -> TermsOf(t.l) \cup TermsOf(t.r) [] t.k = "apt" -> {t.term} [] OTHER -> {}
(* nothing but terms' letters and conversion change what is searched for *)
Same == \A x \in DOMAIN st.cur : st.cur[x].ask.t = "fail" \/
   (st.p.from = st.p.to /\ \A i \in 1..Len(st.p.rules) : st.p.rules[i].k \in {"id", "map", "swap", "drop"})
     => st.cur[x].ask.t = "fail" \/ TermsOf(st.cur[x].ask.tree) = TermsOf(st.cur[x].r.tree)
(* converting there and back is nothing, if it can be done at all *)
Back == \A x \in DOMAIN st.cur : st.p.rules = <<>> /\ st.p.from = "ISO-8859-1" /\ st.p.to = "UTF-8" =>
   st.cur[x].ask.t # "fail" /\ Convert([st.p EXCEPT !.from = "UTF-8", !.to = "ISO-8859-1"], st.cur[x].ask.tree) = st.cur[x].r.tree
=============================================================================
