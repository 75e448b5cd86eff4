------------------------------- MODULE LinkMC -------------------------------
(* All short texts with all small rules: what rewriting leaves alone, and     *)
(* that it ends.  Then one request and its response through both phases.      *)
EXTENDS LinkOps
CONSTANTS MaxLen, DocLen, Wide
VARIABLES d, rule, doc, st, k
Ch(c) == [k |-> "set", s |-> <<c>>, neg |-> FALSE, min |-> 1, max |-> 1]
Some(c, lo, hi) == [k |-> "set", s |-> <<c>>, neg |-> FALSE, min |-> lo, max |-> hi]
AnyOf(lo, hi) == [k |-> "set", s |-> <<>>, neg |-> TRUE, min |-> lo, max |-> hi]
A == 97  B == 98
Grp(ns) == <<[k |-> "open", n |-> 1]>> \o ns \o <<[k |-> "close", n |-> 1]>>
Exprs == {<<Ch(A)>>, <<Some(A, 0, 9)>>, <<AnyOf(0, 9)>>, <<Some(A, 1, 9), Ch(B)>>, <<[k |-> "alt", a |-> <<<<Ch(A)>>, <<Ch(A), Ch(B)>>>>], Ch(B)>>,
          <<[k |-> "bot"], Some(B, 0, 1)>>, <<Some(A, 0, 9), [k |-> "eot"]>>}
X == <<120>>
To == {<<>>, <<B>>, <<36, 123, 120, 125>>, <<92, 36>>, <<A, 36, 123, 120, 125>>}
Rep(e, to) == [anch |-> e[1].k = "bot", ns |-> IF e[1].k = "bot" THEN <<e[1]>> \o Grp(Tail(e)) ELSE Grp(e), names |-> <<X>>, to |-> to]
Reps == {Rep(e, t) : e \in Exprs, t \in To}
Rules == {<<>>} \cup {<<x>> : x \in Reps} \cup (IF Wide THEN {<<x, y>> : x, y \in Reps} ELSE {<<x, Rep(e, <<B>>)>> : x \in Reps, e \in Exprs})
RECURSIVE Texts(_, _)
Texts(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == Texts(S, n - 1) IN T \cup {Append(x, c) : x \in {y \in T : Len(y) = n - 1}, c \in S}
None0 == [any |-> TRUE, is |-> <<>>, pre |-> <<>>]
Is(q) == [any |-> FALSE, is |-> q, pre |-> <<>>]
Init == /\ d = <<>> /\ doc = <<>> /\ st = LStart
        /\ \/ k = 10 /\ rule \in Rules
           \/ k = 20 /\ rule \in {<<Rep(<<Ch(A)>>, t)>> : t \in To}
           \/ k = 30 /\ rule \in {<<Rep(<<Ch(A)>>, t)>> : t \in {<<>>, <<B>>, <<36, 123, 120, 125>>}}
Next ==
  \/ k = 10 /\ d' \in Texts({A, B, 99}, MaxLen) /\ k' = 1 /\ UNCHANGED <<doc, st, rule>>
  \/ k \in {20, 30} /\ k' = k + 1 /\ doc' \in Texts(IF k = 20 THEN {34, A, 47, 10, 92} ELSE {60, 62, A, 61, 34, 47, 32}, 2) /\ UNCHANGED <<d, st, rule>>
  \/ k = 21 /\ \E x \in Texts({34, A, 47, 10, 92}, DocLen - 2) : doc' = doc \o x /\ k' = 2 /\ UNCHANGED <<d, st, rule>>
  \/ k = 31 /\ \E x \in Texts({60, 62, A, 61, 34, 47, 32}, DocLen - 3) : doc' = doc \o x /\ k' = 3 /\ UNCHANGED <<d, st, rule>>
Spec == Init /\ [][Next]_<<d, rule, doc, st, k>>
R1 == Apply1(rule, d, TRUE, <<>>, <<>>)
(* nothing that matches nowhere is changed, and it says whether it was hit *)
Idle == k = 1 => /\ (rule = <<>> => R1.txt = d /\ ~R1.hit)
                 /\ (R1.hit <=> \E i \in 1..Len(rule) : Search(rule[i].ns, d, 1, 0).ok)
                 /\ (~R1.hit => R1.txt = d /\ R1.vars = <<>>)
(* a rule that puts back what it found changes nothing *)
Same == k = 1 /\ (\A i \in 1..Len(rule) : rule[i].to = <<36, 123, 120, 125>> /\ rule[i].ns[1].k \in {"open", "bot"}) => R1.txt = d
(* nor does one all matches of which are to be skipped, but groups are known *)
Skips == k = 1 => LET x == Apply1(rule, d, TRUE, <<<<>>>>, <<>>) IN x.txt = d /\ x.hit = R1.hit /\ x.vars = R1.vars
(* anchored ones are tried at the start only *)
Anchors == k = 1 /\ Len(rule) = 1 /\ rule[1].anch => ~Apply1(rule, d, FALSE, <<>>, <<>>).hit
Out == Lits(rule, doc, 1, FALSE, <<>>, <<>>, <<>>, FALSE)
(* without a complete literal nothing changes; the number of lines stays *)
Lines(q) == Len(SelectSeq(q, LAMBDA c : c = 10))
Literals == k = 2 => /\ Lines(Out.txt) = Lines(doc)
                     /\ (~\E i \in 1..Len(doc) : doc[i] = 34) => Out.txt = doc
                     /\ (rule[1].to = <<36, 123, 120, 125>> => Out.txt = doc)
                     /\ (Len(SelectSeq(doc, LAMBDA c : c = 34)) = 1 /\ Lines(doc) = 0 => Out.txt = doc)
W(tag, attr) == [hdr |-> None0, tag |-> tag, attr |-> attr, req |-> FALSE, ql |-> FALSE, rule |-> rule]
Ht(ws) == Html(ws, H!Parse(doc), 1, <<>>, <<>>, <<>>, <<>>).txt
(* without rules for it a document is what the parser's events say, and the   *)
(* rest of it is whatever is in the parts rewritten                           *)
Docs == k = 3 => /\ Ht(<<>>) = H!EchoOf(H!Parse(doc))
                 /\ (rule[1].to = <<36, 123, 120, 125>> => Ht(<<W(None0, Is(<<<<A>>>>)), W(Is(<<<<A>>>>), Is(<<HashText>>))>>) = Ht(<<>>))
                 /\ LET evs == H!Parse(doc) IN
                    Len(Ht(<<W(None0, Is(<<<<A>>>>))>>)) = Len(Ht(<<>>)) \/ \E i \in 1..Len(evs) : evs[i].e = "attr" /\ evs[i].n = <<A>>
=============================================================================
