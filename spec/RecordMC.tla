------------------------------ MODULE RecordMC ------------------------------
(* One client, all lists of up to MaxEls elements, all requests, and answers   *)
(* of up to two records.                                                       *)
EXTENDS RecordOps
CONSTANTS MaxEls, Wide
VARIABLES st, k, ans
Xml == [b |-> "<r/>", w |-> <<>>, xml |-> TRUE]
Txt == [b |-> "t", w |-> <<>>, xml |-> FALSE]
Els == [syn : {"XML", "USmarc"}, name : {"", "F", "*"}, id : {"", "i"}, bsyn : {"USmarc"}, bname : IF Wide THEN {"0", "", "B"} ELSE {"0", "B"},
        steps : {<<>>, <<"a">>, <<"halt">>}, conv : {TRUE}]
       \cup {[syn |-> "XML", name |-> n, id |-> "", bsyn |-> "", bname |-> "0", steps |-> <<>>, conv |-> FALSE] : n \in {"", "F"}}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE LET T == Seqs(n - 1) IN T \cup {Append(x, y) : x \in T, y \in Els}
Names == {"", "F", "i", "G"}
Reqs == [t : {"search"}, ref : {"x"}, syn : {"", "XML", "SUTRS"}, sesn : Names, mesn : Names, ssub : {1}, lslb : {1, 2}, mspn : {2}]
        \cup [t : {"present"}, ref : {"x"}, syn : {"", "XML", "SUTRS"}, esn : Names, comp : {"simple"}]
        \cup {[t |-> "scan", ref |-> "x"]}
Recs == {[k |-> "rec", db |-> "D", syn |-> s, v |-> v, code |-> 0, add |-> ""] : s \in {"USmarc", "SUTRS"}, v \in {Xml, Txt}}
        \cup {[k |-> "diag", db |-> "D", syn |-> "", v |-> Txt, code |-> 3, add |-> ""]}
Diag == [k |-> "diag", db |-> "D", syn |-> "", v |-> Txt, code |-> 14, add |-> "why"]
Init == st = RStart /\ k = 0 /\ ans = None
Back(t, q) == [t |-> t, ref |-> "x", n |-> Len(q), kind |-> "recs", recs |-> q]
Cands(el, rec) == {rec, Diag} \cup (IF rec.k = "rec" /\ ~Fails(Steps(el.steps, rec.v)) THEN {[rec EXCEPT !.syn = el.syn, !.v = Steps(el.steps, rec.v)]} ELSE {})
Next ==
  \/ k = 0 /\ \E c \in Seqs(MaxEls) : st' = RApply(st, [op |-> "params", p |-> [els |-> c, oid |-> ("XML" :> "1" @@ "SUTRS" :> "2")]]) /\ k' = 1 /\ UNCHANGED ans
  \/ k = 1 /\ \E q \in Reqs : st' = RApply(st, [op |-> "creq", s |-> 1, closed |-> FALSE, r |-> q]) /\ k' = 2 /\ UNCHANGED ans
  \/ k = 2 /\ st.cur[1].ask.ok /\ LET e == [op |-> "breq", s |-> 1, closed |-> FALSE, r |-> st.cur[1].ask.r] IN
       RAllowed(st, e) /\ \E q \in {<<x>> : x \in Recs} \cup (IF Wide THEN {<<x, y>> : x, y \in Recs} ELSE {}) :
         st' = RApply(RApply(st, e), [op |-> "bresp", s |-> 1, closed |-> FALSE, r |-> Back(CASE st.cur[1].r.t = "search" -> "searchr" [] st.cur[1].r.t = "present" -> "presentr" [] OTHER -> "scanr", q)])
       /\ k' = 3 /\ UNCHANGED ans
  \/ k = 3 /\ \E q \in {<<x>> : x \in Cands(st.cur[1].ask.el, st.cur[1].last.recs[1])}
                    \cup (IF Len(st.cur[1].last.recs) = 2 THEN {<<x, y>> : x \in Cands(st.cur[1].ask.el, st.cur[1].last.recs[1]), y \in Cands(st.cur[1].ask.el, st.cur[1].last.recs[2])} ELSE {}) :
       LET e == [op |-> "cresp", s |-> 1, closed |-> FALSE, r |-> [st.cur[1].last EXCEPT !.recs = q]] IN RAllowed(st, e) /\ ans' = e.r /\ k' = 4 /\ UNCHANGED st
Spec == Init /\ [][Next]_<<st, k, ans>>
C == st.cur[1]
Open == 1 \in DOMAIN st.cur
(* records come in the syntax asked for, or a diagnostic says why not *)
Syntax == k = 4 /\ C.ask.el.conv /\ C.r.syn # "" => \A i \in 1..Len(ans.recs) : ans.recs[i].k = "diag" \/ ans.recs[i].syn = C.r.syn
(* as many as there were, and diagnostics of the back end are left *)
Count == k = 4 => ans.n = C.last.n /\ Len(ans.recs) = Len(C.last.recs) /\ \A i \in 1..Len(ans.recs) : C.last.recs[i].k = "diag" => ans.recs[i] = C.last.recs[i]
(* an element of that very name is preferred to one for any *)
ByName == Open /\ C.r.t = "present" /\ C.ask.ok /\ C.r.esn # ""
            /\ (\E i \in 1..Len(st.p.els) : Named(st.p.els[i], C.r.esn) /\ SynOk(st.p.els[i], C.r.syn)) => Named(C.ask.el, C.r.esn)
(* refused only if nothing fits, and then for one reason *)
Refused == Open /\ ~C.ask.ok => Which(st.p, IF C.r.t = "search" THEN C.r.sesn ELSE C.r.esn, C.r.syn) = {} /\ C.ask.code \in {24, 239}
(* one answer can be given in any case *)
Answered == Open /\ k = 3 => C.sent
NoRecords == Open /\ C.r.t = "search" /\ ~Plain(C.r) => C.ask.ok /\ C.ask.r.ssub = 0 /\ C.ask.r.lslb = 1
=============================================================================
