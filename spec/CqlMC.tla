------------------------------ MODULE CqlMC ------------------------------
(* Every small query under every small configuration, of two clients at once: *)
(* a query is either sent on converted or answered with a fault of its own;   *)
(* what was converted says the same when converted back.                      *)
EXTENDS CqlOps
CONSTANTS Depth, Words, Sess
VARIABLES st, asked, got
Term(s, i, rl, w) == [k |-> "term", set |-> s, index |-> i, rel |-> rl, shown |-> IF rl = "eq" THEN "=" ELSE rl, mod |-> "",
                      codes |-> IF w = "x y" THEN <<120, 32, 121>> ELSE IF w = "" THEN <<>> ELSE <<97>>, text |-> w]
Terms == {Term(x[1], x[2], rl, w) : x \in {<<"cql", "serverChoice">>, <<"dc", "title">>, <<"dc", "id">>, <<"no", "title">>}, rl \in {"eq", "<"}, w \in Words}
RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN Terms \cup {[k |-> "bad"]}
            ELSE Trees(d - 1) \cup {[k |-> "op", op |-> o, l |-> l, r |-> x] : o \in {"and", "not"}, l \in Trees(d - 1) \ {[k |-> "bad"]}, x \in Trees(d - 1) \ {[k |-> "bad"]}}
Idx == [cql |-> ("1" :> "1016"), title |-> ("1" :> "4"), id |-> ("1" :> "12" @@ "2" :> "3")]
Confs == {[reverse |-> FALSE, ok |-> TRUE, mod |-> <<>>, every |-> ("4" :> "1" @@ "3" :> "3"), sets |-> <<"cql", "dc">>,
           index |-> [x \in I |-> CASE x = "dc.title" -> Idx.title [] x = "dc.id" -> Idx.id [] OTHER -> Idx.cql],
           relation |-> [x \in R |-> IF x = "eq" THEN "2" :> "3" ELSE "2" :> "1"],
           back |-> SelectSeq(<<[at |-> Idx.cql, name |-> "cql.serverChoice"], [at |-> Idx.title, name |-> "dc.title"], [at |-> Idx.id, name |-> "dc.id"]>>, LAMBDA z : z.name \in I),
           rels |-> ("1" :> "<" @@ "3" :> "=")] : I \in SUBSET {"cql.serverChoice", "dc.title", "dc.id"}, R \in SUBSET {"eq", "<"}}
Two == {Term("dc", "title", "eq", "a"), Term("no", "title", "<", "a"), [k |-> "bad"]}
Init == \E p \in Confs, t1 \in Trees(Depth), t2 \in Two :
          /\ st = [KStart EXCEPT !.p = [cql |-> [x \in {"1", "2"} |-> IF x = "1" THEN t1 ELSE t2]] @@ p]
          /\ asked = {} /\ got = {}
Req(x) == [t |-> "search", qk |-> "cql", q |-> x, tree |-> [k |-> "noRPN"], ref |-> x, dbs |-> <<"A">>]
Ok(x) == [t |-> "searchr", status |-> 1, hits |-> 1, ref |-> x, kind |-> "none", diag |-> 0, add |-> ""]
No(x, d) == [t |-> "searchr", status |-> 0, hits |-> 0, ref |-> x, kind |-> "nsd", diag |-> d[1], add |-> d[2]]
Diags == {<<108, "">>, <<121, "">>, <<114, "title">>, <<114, "id">>, <<114, "serverChoice">>, <<117, "=">>, <<117, "<">>}
Out(x) == [t |-> "search", qk |-> "rpn", q |-> "", tree |-> Rpn(st.p, st.p.cql[x]), ref |-> x, dbs |-> <<"A">>]
Sound(x) == st.p.cql[x].k # "bad" /\ Faults(st.p, st.p.cql[x]) = {}
Ev == UNION {
  {[op |-> "creq", s |-> x, closed |-> FALSE, r |-> Req(x)] : x \in {y \in Sess : \A g \in got : g.s # y}},
  {[op |-> "breq", s |-> x, closed |-> FALSE, r |-> Out(y)] : x \in DOMAIN st.cur, y \in {z \in Sess : Sound(z)}},
  {[op |-> "bresp", s |-> x, closed |-> FALSE, r |-> Ok(x)] : x \in {y \in DOMAIN st.cur : st.cur[y].sent /\ st.cur[y].last = None}},
  {[op |-> "cresp", s |-> x, closed |-> FALSE, r |-> Ok(x)] : x \in DOMAIN st.cur},
  {[op |-> "cresp", s |-> x, closed |-> FALSE, r |-> No(y, d)] : x \in DOMAIN st.cur, y \in Sess, d \in Diags}}
Next == \E e \in Ev :
  /\ IF KAllowed(st, e) THEN st' = KApply(st, e) ELSE FALSE
  /\ asked' = IF e.op = "breq" THEN asked \cup {[s |-> e.s, tree |-> e.r.tree]} ELSE asked
  /\ got' = IF e.op = "cresp" THEN got \cup {[s |-> e.s, d |-> <<e.r.diag, e.r.add>>, ref |-> e.r.ref]} ELSE got
Spec == Init /\ [][Next]_<<st, asked, got>>
(* a CQL text for the tree *)
RECURSIVE Said(_)
SaidSub(x) == IF x.k = "op" THEN "(" \o Said(x) \o ")" ELSE Said(x)
Said(x) == IF x.k = "op" THEN SaidSub(x.l) \o " " \o x.op \o " " \o SaidSub(x.r)
           ELSE LET w == IF x.text \in {"", "x y"} THEN "\"" \o x.text \o "\"" ELSE x.text IN
                IF x.index = "serverChoice" /\ x.rel = "eq" THEN w ELSE x.set \o "." \o x.index \o " " \o x.shown \o " " \o w
(* an index that says what the relation is loses another one *)
RECURSIVE Clear(_)
Clear(x) == IF x.k = "op" THEN Clear(x.l) /\ Clear(x.r) ELSE x.index # "id" \/ x.rel = "eq"
Back == \A a \in asked : LET t == st.p.cql[a.s] IN
          /\ FaultsBack(st.p, a.tree) = {}
          /\ Clear(t) => Cql(st.p, a.tree) = Said(t)
Own == \A g \in got : g.ref = g.s /\ IF g.d = <<0, "">> THEN \E a \in asked : a.s = g.s ELSE g.d \in Faults(st.p, st.p.cql[g.s])
NotBoth == \A a \in asked : Sound(a.s)
Live == \A x \in DOMAIN st.cur : st.cur[x].sent \/ Sound(x) \/ \E d \in Diags : KAllowed(st, [op |-> "cresp", s |-> x, closed |-> FALSE, r |-> No(x, d)])
=============================================================================
