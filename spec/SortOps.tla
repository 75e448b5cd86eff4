------------------------------- MODULE SortOps -------------------------------
(* The sort filter: the first records of a result set are fetched, sorted and *)
(* served in that order.                                                      *)
EXTENDS FiltBase

SStart == [p |-> [prefetch |-> 0], cl |-> <<>>, cur |-> <<>>]
NoClient == [virt |-> FALSE, sets |-> <<>>]
Cl(s, x) == IF x \in DOMAIN s.cl THEN s.cl[x] ELSE NoClient
Min(a, b) == IF a < b THEN a ELSE b
Pos(n) == IF n < 0 THEN 0 ELSE n

(* records by increasing key, those of equal keys as they came; reversed for  *)
(* descending order                                                           *)
KeyOf(s, r) == IF r.k = "rec" /\ r.syn = "XML" /\ r.v \in DOMAIN s.p.rank THEN s.p.rank[r.v] ELSE 0
RECURSIVE Insert(_, _, _)
Insert(s, q, r) == IF q = <<>> THEN <<r>>
                   ELSE IF KeyOf(s, q[Len(q)]) <= KeyOf(s, r) THEN Append(q, r)
                   ELSE Append(Insert(s, SubSeq(q, 1, Len(q) - 1), r), q[Len(q)])
RECURSIVE SortUp(_, _)
SortUp(s, q) == IF q = <<>> THEN <<>> ELSE Insert(s, SortUp(s, SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Sorted(s, q) == IF s.p.up THEN SortUp(s, q) ELSE Reverse(SortUp(s, q))

Exists(s, x, r) == r.set \in DOMAIN Cl(s, x).sets
ListOf(s, x, r) == Cl(s, x).sets[r.set].lists        \* syntax -> sorted records
(* a present of records that are there already *)
Cached(s, x, r) == /\ r.syn \in DOMAIN ListOf(s, x, r)
                   /\ r.start >= 1 /\ r.num >= 0
                   /\ r.start - 1 + r.num <= Len(ListOf(s, x, r)[r.syn])
(* the element set a search asks for its piggybacked records *)
SearchEsn(r, hits) == IF hits <= r.ssub THEN r.sesn ELSE IF hits < r.lslb THEN r.mesn ELSE ""
Local(s, x, r) ==
  CASE ~Cl(s, x).virt -> "no"
    [] r.t = "search" -> IF Exists(s, x, r) /\ ~r.rep THEN "yes" ELSE "no"
    [] r.t = "present" -> IF ~Exists(s, x, r) \/ Cached(s, x, r) THEN "yes" ELSE "no"
    [] OTHER -> "no"
(* having the first records, more are fetched up to the limit *)
End(s, c) == Min(s.p.prefetch, Pos(c.hits))
More(s, c) == c.sorting /\ ~c.dry /\ Len(c.recs) < End(s, c)

TAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp"} -> TRUE
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" ->
         \/ Ended(e)
         \/ /\ e.s \in DOMAIN s.cur
            /\ LET c == s.cur[e.s] IN
               \/ ~c.sent /\ c.local = "no" /\ e.r = c.r
               \/ /\ c.sent /\ More(s, c) /\ ~c.bclosed
                  /\ e.r.t = "present" /\ e.r.set = c.r.set /\ e.r.syn = c.r.syn /\ e.r.ref = ""
                  /\ e.r.start = Len(c.recs) + 1 /\ e.r.num = End(s, c) - Len(c.recs)
                  /\ e.r.esn = IF c.r.t = "search" THEN SearchEsn(c.r, c.hits) ELSE c.r.esn
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s]  r == c.r IN
            IF r.t = "none" THEN e.r = None
            ELSE IF c.local = "yes"
            THEN /\ ~e.closed
                 /\ CASE r.t = "search" -> DiagIs(e.r, "searchr", r.ref, 21, "") /\ Failed(e.r, "searchr")
                      [] ~Exists(s, e.s, r) -> DiagIs(e.r, "presentr", r.ref, 30, r.set) /\ Failed(e.r, "presentr")
                      [] OTHER -> /\ e.r.t = "presentr" /\ e.r.ref = r.ref /\ e.r.diag = 0 /\ e.r.pstatus = 0
                                  /\ e.r.n = r.num
                                  /\ e.r.recs = SubSeq(ListOf(s, e.s, r)[r.syn], r.start, r.start + r.num - 1)
            ELSE /\ c.sent /\ e.closed = c.bclosed
                 /\ IF c.sorting
                    THEN (~More(s, c) \/ c.bclosed) /\ e.r = [c.last EXCEPT !.recs = SubSeq(Sorted(s, c.recs), 1, Len(c.last.recs))]
                    ELSE e.r = c.last
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

First(s, e) ==
  LET c == s.cur[e.s]  r == c.r
      recs == e.r.t \in {"searchr", "presentr"} /\ e.r.kind = "recs"
      hits == CASE r.t = "search" /\ e.r.t = "searchr" -> e.r.hits
                [] r.t = "present" /\ Cl(s, e.s).virt -> Cl(s, e.s).sets[r.set].hits
                [] OTHER -> 0
      sorting == /\ Cl(s, e.s).virt /\ recs
                 /\ (r.t = "search" /\ e.r.t = "searchr")
                    \/ (r.t = "present" /\ e.r.t = "presentr" /\ r.start = 1 /\ r.syn \notin DOMAIN ListOf(s, e.s, r))
  IN [s EXCEPT !.cur[e.s] = [c EXCEPT !.last = e.r, !.bclosed = e.closed, !.hits = hits, !.sorting = sorting, !.got = TRUE,
                                      !.recs = IF sorting THEN e.r.recs ELSE <<>>, !.dry = sorting /\ e.r.recs = <<>>]]
Next2(s, e) ==
  LET c == s.cur[e.s]
      new == IF e.r.t = "presentr" /\ e.r.kind = "recs" THEN e.r.recs ELSE <<>>
  IN [s EXCEPT !.cur[e.s] = [c EXCEPT !.bclosed = @ \/ e.closed, !.recs = @ \o new, !.dry = new = <<>>]]

TApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" ->
         LET s2 == [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, local |-> Local(s, e.s, e.r), sent |-> FALSE, got |-> FALSE, sorting |-> FALSE, dry |-> FALSE,
                                                  hits |-> 0, recs |-> <<>>, last |-> None, bclosed |-> FALSE])]
         IN IF Cl(s, e.s).virt /\ e.r.t = "search" /\ s2.cur[e.s].local = "no"
            THEN [s2 EXCEPT !.cl[e.s].sets = Put(@, e.r.set, [hits |-> 0, lists |-> <<>>])] ELSE s2
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].sent = TRUE]
    [] e.op = "bresp" -> IF s.cur[e.s].got THEN Next2(s, e) ELSE First(s, e)
    [] e.op = "cresp" ->
         LET c == s.cur[e.s]
             s2 == [s EXCEPT !.cur = Del(@, e.s)]
             s3 == CASE c.r.t = "init" -> [s2 EXCEPT !.cl = Put(@, e.s, [Cl(s, e.s) EXCEPT !.virt = TRUE])]
                     [] c.r.t \in {"search", "present"} /\ c.local = "no" /\ Cl(s, e.s).virt ->
                          [s2 EXCEPT !.cl[e.s].sets[c.r.set] =
                             [hits |-> IF c.r.t = "search" THEN c.hits ELSE @.hits,
                              lists |-> IF c.sorting THEN Put(@.lists, c.r.syn, Sorted(s, c.recs)) ELSE @.lists]]
                     [] OTHER -> s2
         IN IF e.closed THEN [s3 EXCEPT !.cl = Del(@, e.s)] ELSE s3
    [] OTHER -> s
=============================================================================
