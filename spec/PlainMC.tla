------------------------------ MODULE PlainMC ------------------------------
(* Two clients of each of the filters, and a back end answering anything out  *)
(* of a small universe, the filter giving any answer the specification lets   *)
(* it give: bounce sends nothing on and leaves no session open; no diagnostic *)
(* is left among records after sd_remove, and no record is lost or made up;   *)
(* explain requests get an answer without the back end, others only its own.  *)
EXTENDS PlainOps
CONSTANTS MaxReq, MaxRec, Sess
VARIABLES st, k, log    \* log: what clients got: request, asked back end, its answer, answer, closed
Rec(d, kk, c) == [db |-> d, k |-> kk, syn |-> IF kk = "diag" THEN "" ELSE "XML", code |-> c, add |-> IF c = 14 THEN "x" ELSE "", v |-> IF kk = "diag" THEN "" ELSE "v"]
RecU == {Rec("D", "rec", 0), Rec("D", "diag", 14), Rec("E", "diag", 2)}
Names0 == [x \in {"14", "2"} |-> "text" \o x]
Lists == UNION {[1..n -> RecU] : n \in 0..MaxRec}
Pres(rs, n) == [t |-> "presentr", ref |-> "", kind |-> "recs", n |-> n, recs |-> rs]
Bk == {Pres(rs, n) : rs \in Lists, n \in {0, 2}} \cup {[t |-> "closer", ref |-> ""]}
Http(id, ver) == [t |-> "http", method |-> "GET", path |-> "/G", ver |-> ver, h |-> <<<<"X-Id", id>>>>, body |-> "", len |-> 0]
Reqs == {[t |-> "delete", ref |-> "r", x |-> [w |-> 7]], Http("1", "1.1"), Http("2", "1.0"), Http("3", "1.1"), Http("4", "1.1")}
QU == ("1" :> [do |-> "explain", host |-> "c", port |-> "9", db |-> "G", diags |-> <<>>, packing |-> "xml"])
   @@ ("2" :> [do |-> "undecodable", host |-> "c", port |-> "9", db |-> "G", diags |-> <<>>, packing |-> "xml"])
   @@ ("3" :> [do |-> "refused", host |-> "c", port |-> "9", db |-> "G", diags |-> <<>>, packing |-> "xml"])
   @@ ("4" :> [do |-> "pass", host |-> "c", port |-> "9", db |-> "G", diags |-> <<>>, packing |-> "xml"])
Own == {[t |-> "httpr", code |-> c, ver |-> v, h |-> IF v = "1.1" THEN <<<<"Connection", "Keep-Alive">>>> ELSE <<>>, body |-> b,
         sru |-> [k |-> kk, host |-> "c", port |-> "9", db |-> "G", diags |-> <<>>, packing |-> "xml"]] :
          c \in {200, 400}, v \in {"1.0", "1.1"}, b \in {"", "GET /G HTTP/1.1" \o CRLF \o "X-Id: 1" \o CRLF \o CRLF}, kk \in {"explain", "bad"}}
       \cup {[t |-> "close", ref |-> "r", reason |-> n, x |-> [msg |-> <<"BOUNCE Z3950 deleteResultSetRequest">>]] : n \in {1, 2}}
Answ == Own \cup Bk \cup {None} \cup {Cleared([names |-> Names0], b) : b \in Bk}
Init == \E kind \in {"bounce", "sdr", "zee"}, echo \in BOOLEAN :
          st = [YStart EXCEPT !.p = [kind |-> kind, echo |-> echo, names |-> Names0, reqs |-> QU]] /\ k = 0 /\ log = {}
Ev == UNION {
  {[op |-> "creq", s |-> x, closed |-> FALSE, r |-> r] : x \in Sess, r \in IF k < MaxReq THEN Reqs ELSE {}},
  {[op |-> "breq", s |-> x, closed |-> FALSE, r |-> r] : x \in DOMAIN st.cur, r \in Reqs},
  {[op |-> "bresp", s |-> x, closed |-> c, r |-> b] : x \in {y \in DOMAIN st.cur : st.cur[y].state = "wait"}, b \in Bk, c \in BOOLEAN},
  {[op |-> "cresp", s |-> x, closed |-> c, r |-> b] : x \in DOMAIN st.cur, b \in Answ, c \in BOOLEAN}}
Next == \E e \in Ev :
  /\ IF YAllowed(st, e) THEN st' = YApply(st, e) ELSE FALSE
  /\ k' = IF e.op = "creq" THEN k + 1 ELSE k
  /\ log' = IF e.op # "cresp" THEN log ELSE
       LET c == st.cur[e.s] IN {[r |-> c.r, asked |-> c.state = "done", b |-> c.last, bc |-> c.lastclosed, a |-> e.r, closed |-> e.closed]}
Spec == Init /\ [][Next]_<<st, k, log>>
Bounced == st.p.kind = "bounce" => \A g \in log : ~g.asked /\ g.closed /\ g.a # None
NoDiags == st.p.kind = "sdr" => \A g \in log :
   /\ g.asked /\ g.closed = g.bc
   /\ g.b.t = "presentr" => /\ Len(g.a.recs) = Len(g.b.recs)
                            /\ \A i \in DOMAIN g.a.recs : /\ g.a.recs[i].db = g.b.recs[i].db
                                                          /\ g.b.recs[i].k = "rec" => g.a.recs[i] = g.b.recs[i]
                                                          /\ g.b.n > 0 => g.a.recs[i].k = "rec"
Explains == st.p.kind = "zee" => \A g \in log :
   IF g.asked THEN g.a = g.b /\ g.closed = g.bc ELSE g.r.t = "http" /\ st.p.reqs[g.r.h[1][2]].do # "pass" /\ g.a.t = "httpr"
(* whatever is asked can be answered *)
CanAnswer == \A x \in DOMAIN st.cur : st.cur[x].state \in {"answer", "done"} \cup {"explain", "undecodable", "refused"} =>
   \E a \in Answ, c \in BOOLEAN : YAllowed(st, [op |-> "cresp", s |-> x, closed |-> c, r |-> a]) \/ (st.p.kind = "bounce" /\ st.p.echo)
=============================================================================
