------------------------------ MODULE RecordOps ------------------------------
(* The record_transform filter: which record syntaxes and schemas there are,  *)
(* what they are made from, and how.                                          *)
EXTENDS FiltBase

(* p.els: [syn, name, id, bsyn, bname (0: not given), steps]; p.oid: of syntaxes *)
RStart == [p |-> [els |-> <<>>, oid |-> <<>>], cur |-> <<>>]

(* ---------------------------------------------------- which one is meant  *)
Named(el, schema) == (el.name # "" /\ (el.name = schema \/ el.name = "*")) \/ (el.id # "" /\ el.id = schema)
Wants(el, schema) == schema = "" \/ (el.name = "" /\ el.id = "") \/ Named(el, schema)
SynOk(el, syn) == syn = "" \/ el.syn = syn
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Last(S) == CHOOSE i \in S : \A j \in S : i >= j
Which(p, schema, syn) == {i \in 1..Len(p.els) : Wants(p.els[i], schema) /\ SynOk(p.els[i], syn)}
Best(p, schema, S) == LET N == {i \in S : schema # "" /\ Named(p.els[i], schema)} IN IF N # {} THEN Last(N) ELSE First(S)
Reject(code, add) == [ok |-> FALSE, code |-> code, add |-> add]
Found(p, schema, syn) ==
  IF p.els = <<>> THEN [ok |-> TRUE, el |-> [syn |-> "", steps |-> <<>>, conv |-> FALSE], syn |-> "", esn |-> ""]
  ELSE IF Which(p, schema, syn) # {} THEN
    LET el == p.els[Best(p, schema, Which(p, schema, syn))]
    IN [ok |-> TRUE, el |-> el, syn |-> IF el.bsyn # "" THEN el.bsyn ELSE el.syn,
        esn |-> IF el.bname # "0" THEN el.bname ELSE schema]
  ELSE IF \A i \in 1..Len(p.els) : ~SynOk(p.els[i], syn) THEN Reject(239, p.oid[syn])
  ELSE Reject(24, schema)

(* ------------------------------------------------------------ the request *)
(* for a search it must be clear which element set will be asked for: else    *)
(* no records come with the answer                                            *)
Plain(r) == (r.sesn # "" /\ r.sesn = r.mesn) \/ (r.sesn = "" /\ r.mesn = "" /\ r.lslb > 1)
NoConv(r) == [ok |-> TRUE, r |-> r, el |-> [syn |-> "", steps |-> <<>>, conv |-> FALSE]]
Ask(p, r) ==
  CASE r.t = "search" /\ ~Plain(r) -> NoConv([r EXCEPT !.ssub = 0, !.lslb = 1, !.mspn = 0])
    [] r.t = "search" -> LET f == Found(p, r.sesn, r.syn)
                         IN IF f.ok THEN [ok |-> TRUE, r |-> [r EXCEPT !.syn = f.syn, !.sesn = f.esn, !.mesn = f.esn], el |-> f.el] ELSE f
    [] r.t = "present" -> LET f == Found(p, r.esn, r.syn)
                          IN IF f.ok THEN [ok |-> TRUE, r |-> [r EXCEPT !.syn = f.syn, !.esn = f.esn, !.comp = IF f.esn = "" THEN "none" ELSE "simple"], el |-> f.el] ELSE f
    [] OTHER -> NoConv(r)

(* ------------------------------------------------------------ the records *)
(* a record's text: what it was first, and the elements put around it since;  *)
(* xml: whether it is XML                                                     *)
RECURSIVE Steps(_, _)
Steps(q, v) == IF q = <<>> THEN v
               ELSE IF ~v.xml THEN [fail |-> "xmlParseMemory failed"]       \* what the library says
               ELSE IF q[1] = "halt" THEN [fail |-> "xsltApplyStylesheet failed"]
               ELSE IF q[1] = "id" THEN Steps(Tail(q), v) ELSE Steps(Tail(q), [v EXCEPT !.w = <<q[1]>> \o @])
Fails(v) == "fail" \in DOMAIN v
IsDiag(x, rec) == x.k = "diag" /\ x.db = rec.db /\ x.code = 14 /\ x.add # ""
Converted(el, rec, x) ==
  IF rec.k # "rec" THEN x = rec
  ELSE IF rec.syn = "SUTRS" THEN IsDiag(x, rec)      \* no text the library can convert
  ELSE LET v == Steps(el.steps, rec.v) IN
       IF Fails(v) THEN IsDiag(x, rec) /\ x.add = v.fail ELSE x = [rec EXCEPT !.syn = el.syn, !.v = v]
Answer(c, r) ==
  IF c.ask.el.conv /\ c.last.t \in {"searchr", "presentr"} /\ c.last.kind = "recs" /\ c.last.n > 0
  THEN /\ r = [c.last EXCEPT !.recs = r.recs] /\ Len(r.recs) = Len(c.last.recs)
       /\ \A i \in 1..Len(r.recs) : Converted(c.ask.el, c.last.recs[i], r.recs[i])
  ELSE r = c.last

RAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp"} -> e.op = "config" => e.ok
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" -> Ended(e) \/ (e.s \in DOMAIN s.cur /\ s.cur[e.s].ask.ok /\ ~s.cur[e.s].sent /\ e.r = s.cur[e.s].ask.r)
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN
            CASE c.r.t = "none" -> e.r = None
              [] ~c.ask.ok -> LET t == IF c.r.t = "search" THEN "searchr" ELSE "presentr"
                              IN ~c.sent /\ DiagIs(e.r, t, c.r.ref, c.ask.code, c.ask.add) /\ Failed(e.r, t) /\ ~e.closed
              [] OTHER -> c.sent /\ Answer(c, e.r) /\ e.closed = c.lastclosed
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

RApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, ask |-> Ask(s.p, e.r), sent |-> FALSE, last |-> None, lastclosed |-> FALSE])]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].sent = TRUE]
    [] e.op = "bresp" -> [s EXCEPT !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed]
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s)]
    [] OTHER -> s
=============================================================================
