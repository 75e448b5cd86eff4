------------------------------ MODULE SharedOps ------------------------------
(* The session_shared filter: clients share back end sessions and the result  *)
(* sets in them.  Clients are at work at the same time; an event says on      *)
(* whose behalf (o) it is, and when (vt, seconds).  What is shared is hidden  *)
(* from clients: each gets what its own searches would have given.            *)
EXTENDS FiltBase

(* cl: client -> its key and its result sets (name -> databases and query)    *)
(* bs: back end session -> key, state, who uses it, the result sets in it     *)
(* cur: client -> its request under way                                       *)
ZStart == [p |-> <<>>, cl |-> <<>>, bs |-> <<>>, cur |-> <<>>, inits |-> {}, asked |-> {}, known |-> {}, failed |-> {}, stop |-> FALSE]

IsClient(s, x) == x \in DOMAIN s.cl
Key(s, r) == IF s.p.ignore
             THEN [auth |-> "none", open |-> "", group |-> "", user |-> "", pass |-> "", vh |-> r.vh, oi |-> r.oi]
             ELSE [auth |-> r.auth, open |-> r.open, group |-> r.group, user |-> r.user, pass |-> r.pass, vh |-> r.vh, oi |-> r.oi]
KeyOf(r) == [auth |-> r.auth, open |-> r.open, group |-> r.group, user |-> r.user, pass |-> r.pass, vh |-> r.vh, oi |-> r.oi]
Set(d, q) == [dk |-> d.dk, dbs |-> d.dbs, q |-> q]
Same(x, y) == x.dk = y.dk /\ x.q = y.q
Limit(s) == IF s.p.named /\ s.p.sets > 1 THEN s.p.sets ELSE 1

(* back end sessions of a key that count; those nobody uses; a set there      *)
Open(s, k) == {b \in DOMAIN s.bs : s.bs[b].key = k /\ s.bs[b].st \in {"init", "up"}}
Idle(s, k) == {b \in DOMAIN s.bs : s.bs[b].key = k /\ s.bs[b].st = "up" /\ s.bs[b].owner = 0}
Has(s, b, x) == \E n \in DOMAIN s.bs[b].sets : Same(s.bs[b].sets[n], x)
(* while c was on there may have been no room for one more, with what others  *)
(* at work may have been about to make                                        *)
Busy(s, c) == Cardinality(c.ops) + Cardinality(c.with) >= s.p.max
Full(s, k) == Cardinality(Open(s, k)) >= s.p.max

-----------------------------------------------------------------------------
(* A query that refers to result sets stands for one with their queries: the  *)
(* tokens after "@set" are names of the client's sets.                        *)
RECURSIVE BadRef(_, _, _, _)
BadRef(sets, dk, q, i) ==          \* the first name that cannot be used
  IF i > Len(q) THEN <<>>
  ELSE IF q[i] = "@set" THEN
         IF q[i + 1] \notin DOMAIN sets \/ sets[q[i + 1]].dk # dk THEN <<q[i + 1]>> ELSE BadRef(sets, dk, q, i + 2)
  ELSE BadRef(sets, dk, q, i + 1)
RECURSIVE Expand(_, _, _)
Expand(sets, q, i) ==
  IF i > Len(q) THEN <<>>
  ELSE IF q[i] = "@set" THEN sets[q[i + 1]].q \o Expand(sets, q, i + 2)
  ELSE <<q[i]>> \o Expand(sets, q, i + 1)

-----------------------------------------------------------------------------
(* Requests *)
NoSet == [dk |-> <<>>, dbs |-> <<>>, q |-> <<>>]
Begin(s, e) ==
  LET virt == IsClient(s, e.s)
      r == e.r
      sets == IF virt THEN s.cl[e.s].sets ELSE <<>>
      key == IF virt THEN s.cl[e.s].key ELSE IF r.t = "init" THEN Key(s, r) ELSE <<>>
      taken == r.t = "search" /\ r.set \in DOMAIN sets
      rest == IF taken THEN Del(sets, r.set) ELSE sets
      bad == IF r.t # "search" \/ ~virt THEN <<>> ELSE BadRef(rest, r.dk, r.qt, 1)
      early == CASE ~virt -> <<>>
                 [] r.t = "search" /\ taken /\ ~r.rep -> <<21, "">>
                 [] r.t = "search" /\ bad # <<>> -> <<30, bad[1]>>
                 [] r.t = "present" /\ r.set \notin DOMAIN sets -> <<30, r.set>>
                 [] OTHER -> <<>>
      x == IF ~virt \/ early # <<>> THEN NoSet
           ELSE IF r.t = "search" THEN Set(r, Expand(rest, r.qt, 1))
           ELSE IF r.t = "present" THEN sets[r.set] ELSE NoSet
      others == {c \in DOMAIN s.cur : s.cur[c].key = key}
      c == [r |-> r, virt |-> virt, key |-> key, early |-> early, x |-> x, st |-> "get", b |-> 0, set |-> "", hits |-> 0, last |-> None, lastclosed |-> FALSE,
            avail |-> UNION {{s.bs[b].sets[n].hits : n \in {m \in DOMAIN s.bs[b].sets : Same(s.bs[b].sets[m], x)}} : b \in {y \in Open(s, key) : s.bs[y].st = "up"}},
            up |-> {y \in Open(s, key) : s.bs[y].st = "up"},
            ops |-> IF key = <<>> THEN {} ELSE Open(s, key), with |-> others, again |-> FALSE, alone |-> others = {} /\ key \notin s.failed]
      s1 == [s EXCEPT !.cur = [y \in DOMAIN @ |-> IF y \in others THEN [@[y] EXCEPT !.alone = FALSE, !.with = @ \cup {e.s}] ELSE @[y]]]
      s2 == IF virt /\ taken /\ r.rep THEN [s1 EXCEPT !.cl[e.s].sets = rest] ELSE s1
      s3 == IF ~virt /\ r.t = "init" THEN [s2 EXCEPT !.asked = @ \cup {<<key, r.ref, r.pms, r.mrs>>}] ELSE s2
  IN [s3 EXCEPT !.cur = Put(@, e.s, c)]

-----------------------------------------------------------------------------
(* What is sent to back ends *)
Conf(v, w) == IF v = 0 THEN w ELSE v
InitOk(s, c, e) ==
  /\ e.s \notin DOMAIN s.bs /\ ~IsClient(s, e.s) /\ e.s \notin DOMAIN s.cur
  /\ c.st = "get"
  /\ ~Full(s, c.key)
  /\ IF c.r.t = "init" THEN ~c.virt /\ c.up \cap Open(s, c.key) = {}
     ELSE /\ c.virt /\ c.r.t \in {"search", "present", "scan"} /\ c.early = <<>>
          /\ c.alone => \A b \in Idle(s, c.key) : c.r.t # "scan" /\ ~Has(s, b, c.x) /\ Cardinality(DOMAIN s.bs[b].sets) >= Limit(s)
  /\ KeyOf(e.r) = c.key
  /\ Rng(e.r.opts) = {"search", "present", "scan", "named"}
  /\ \E a \in s.asked : a[1] = c.key /\ a[2] = e.r.ref /\ e.r.pms = Conf(s.p.pms, a[3]) /\ e.r.mrs = Conf(s.p.mrs, a[4])
Usable(s, c, b) == b \in Idle(s, c.key) \/ (c.st = "own" /\ b = c.b)
SearchOk(s, c, e) ==
  /\ c.virt /\ c.r.t \in {"search", "present"} /\ c.early = <<>>
  /\ c.st \in {"get", "own"} /\ (c.st = "own" => e.s = c.b)
  /\ Usable(s, c, e.s)
  /\ c.alone /\ ~c.again => \A b \in Idle(s, c.key) : ~Has(s, b, c.x)
  /\ e.r.dbs = c.x.dbs /\ e.r.qt = c.x.q
  /\ e.r.rep /\ e.r.ref = "" /\ e.r.ssub = 0 /\ e.r.lslb = 1 /\ e.r.mspn = 0
  /\ e.r.syn = IF c.r.t = "search" THEN c.r.syn ELSE ""
  /\ LET b == s.bs[e.s] IN
     IF e.r.set \in DOMAIN b.sets
     THEN (* in place of one that was not used for long, or as there is no other way *)
          Busy(s, c) \/ e.vt - b.sets[e.r.set].at >= s.p.rttl
     ELSE Cardinality(DOMAIN b.sets) < Limit(s)
  /\ ~s.p.named => e.r.set = "default"
PresentOk(s, c, e) ==
  /\ c.virt /\ c.r.t = "present" /\ c.early = <<>>
  /\ \/ c.st = "have" /\ e.s = c.b /\ e.r.set = c.set
     \/ /\ c.st = "get" /\ e.s \in Idle(s, c.key)
        /\ e.r.set \in DOMAIN s.bs[e.s].sets /\ Same(s.bs[e.s].sets[e.r.set], c.x)
  /\ e.r.start = c.r.start /\ e.r.num = c.r.num /\ e.r.syn = c.r.syn /\ e.r.esn = c.r.esn /\ e.r.ref = ""
ScanOk(s, c, e) == c.virt /\ c.r.t = "scan" /\ c.st \in {"get", "own"} /\ (c.st = "own" => e.s = c.b) /\ Usable(s, c, e.s) /\ e.r = c.r

(* a back end is told that its session is over *)
Over(e) == e.closed
EndOk(s, e) ==
  \/ e.s \notin DOMAIN s.bs                     \* a client, or one that never came to be
  \/ s.bs[e.s].st \in {"dead", "gone"}
  \/ s.stop
  \/ s.bs[e.s].st = "up" /\ s.bs[e.s].owner = 0 /\ e.o = 0 /\ e.vt - s.bs[e.s].used > s.p.ttl
BreqOk(s, e) ==
  \/ (Over(e) /\ EndOk(s, e))
  \/ /\ ~e.closed
     /\ e.o \in DOMAIN s.cur
     /\ LET c == s.cur[e.o] IN
        IF e.s = e.o THEN ~c.virt /\ c.r.t # "init" /\ c.st = "get" /\ e.r = c.r
        ELSE CASE e.r.t = "init" -> InitOk(s, c, e)
               [] e.r.t = "search" -> SearchOk(s, c, e)
               [] e.r.t = "present" -> PresentOk(s, c, e)
               [] e.r.t = "scan" -> ScanOk(s, c, e)
               [] OTHER -> FALSE

Breq(s, e) ==
  IF Over(e)
  THEN IF e.s \in DOMAIN s.bs THEN [s EXCEPT !.bs[e.s].st = "gone", !.bs[e.s].sets = <<>>] ELSE s
  ELSE IF e.s = e.o THEN [s EXCEPT !.cur[e.o].st = "passed"]
  ELSE LET c == s.cur[e.o] IN
       CASE e.r.t = "init" ->
              [s EXCEPT !.bs = Put(@, e.s, [key |-> c.key, st |-> "init", owner |-> e.o, sets |-> <<>>, used |-> e.vt]),
                        !.cur = [y \in DOMAIN @ |-> IF y = e.o THEN [@[y] EXCEPT !.ops = @ \cup {e.s}, !.st = "init", !.b = e.s]
                                                    ELSE IF @[y].key = c.key THEN [@[y] EXCEPT !.ops = @ \cup {e.s}] ELSE @[y]]]
         [] e.r.t = "search" ->
              [s EXCEPT !.bs[e.s].owner = e.o, !.bs[e.s].used = e.vt, !.bs[e.s].sets = Del(@, e.r.set),
                        !.cur[e.o].st = "search", !.cur[e.o].b = e.s, !.cur[e.o].set = e.r.set]
         [] OTHER ->
              [s EXCEPT !.bs[e.s].owner = e.o, !.bs[e.s].used = e.vt,
                        !.cur[e.o].st = e.r.t, !.cur[e.o].b = e.s, !.cur[e.o].set = IF e.r.t = "present" THEN e.r.set ELSE ""]

(* What they answer *)
Kill(s, b) == [s EXCEPT !.bs[b].st = "dead", !.bs[b].owner = 0]
Free(s, b) == [s EXCEPT !.bs[b].owner = 0]
Step(s, x, st) == [s EXCEPT !.cur[x].st = st]
Records(s, c, e) ==
  IF e.r.kind # "recs" \/ c.r.start <= 0 THEN {}
  ELSE {<<c.key, c.x.dk, c.x.q, c.r.start + i - 1, c.r.syn, c.r.esn, e.r.recs[i]>> : i \in 1..Len(e.r.recs)}
Bresp(s, e) ==
  IF e.s = e.o THEN [s EXCEPT !.cur[e.o].last = e.r, !.cur[e.o].lastclosed = e.closed]
  ELSE
  LET x == e.o  c == s.cur[x]  b == e.s
      s1 == [s EXCEPT !.cur[x].last = e.r, !.cur[x].lastclosed = e.closed]
  IN CASE c.st = "init" ->
            LET s2 == IF e.r.t = "initr" THEN [s1 EXCEPT !.inits = @ \cup {<<c.key, e.r>>}] ELSE s1
            IN IF e.r.t = "initr" /\ e.r.ok /\ ~e.closed
               THEN LET s3 == [s2 EXCEPT !.bs[b].st = "up"]
                    IN IF c.r.t = "init" THEN Step(Free(s3, b), x, "done") ELSE Step(s3, x, "own")
               ELSE [Step(Kill(s2, b), x, "none") EXCEPT !.failed = @ \cup {c.key}]
       [] c.st = "search" ->
            IF e.r.t # "searchr" \/ e.closed THEN Step(Kill(s1, b), x, "lost")
            ELSE IF s.p.restart /\ ~c.again /\ (e.r.diag = 2 \/ (e.r.diag = 0 /\ e.r.hits < 0))
                 THEN [Step(Kill(s1, b), x, "get") EXCEPT !.cur[x].again = TRUE]
            ELSE IF e.r.diag # 0 THEN Step(Free(s1, b), x, "failed")
            ELSE LET s2 == [s1 EXCEPT !.bs[b].sets = Put(@, c.set, [dk |-> c.x.dk, dbs |-> c.x.dbs, q |-> c.x.q, hits |-> e.r.hits, at |-> s.bs[b].used]),
                                      !.cur = [y \in DOMAIN @ |-> IF @[y].key = c.key /\ Same(@[y].x, c.x)
                                                                  THEN [@[y] EXCEPT !.avail = @ \cup {e.r.hits}] ELSE @[y]]]
                 IN IF c.r.t = "search" THEN [Step(Free(s2, b), x, "done") EXCEPT !.cur[x].hits = e.r.hits] ELSE Step(s2, x, "have")
       [] c.st = "present" ->
            IF e.r.t # "presentr" \/ e.closed THEN Step(Kill(s1, b), x, "lost")
            ELSE [Step(Free(s1, b), x, "done") EXCEPT !.known = @ \cup Records(s, c, e)]
       [] c.st = "scan" -> IF e.closed THEN Step(Kill(s1, b), x, "done") ELSE Step(Free(s1, b), x, "done")

-----------------------------------------------------------------------------
(* Answers to clients *)
Inter(q, o) == SelectSeq(q, LAMBDA v : v \in Rng(o))
(* for the reason a is given *)
Why(c) == IF c.st = "none" /\ c.last.t = "initr" /\ c.last.diag # 0 THEN c.last.diag ELSE 2
Cap(conf, have, want) == IF conf = 0 \/ have > want THEN want ELSE have
InitAnswer(s, c, e) ==
  LET mine == {i \in s.inits : i[1] = c.key} IN
  \/ /\ \E i \in mine :
          e.r = [i[2] EXCEPT !.ref = c.r.ref, !.opts = Inter(@, c.r.opts), !.pms = Cap(s.p.pms, @, c.r.pms), !.mrs = Cap(s.p.mrs, @, c.r.mrs)]
     /\ e.closed = ~e.r.ok
     /\ (c.up # {} \/ c.st = "done") => e.r.ok
  \/ /\ e.closed /\ c.up = {} /\ c.st = "none" /\ e.r.t = "initr" /\ ~e.r.ok /\ e.r.diag = 2 /\ e.r.ref = c.r.ref
(* there was no session to do it in *)
NoSession(s, c) ==
  \/ c.st = "none"
  \/ c.st = "get" /\ Busy(s, c) /\ (c.alone /\ s.p.named /\ s.p.sets > 1 => Idle(s, c.key) = {})
Let(s, c) == (c.st \in {"none", "lost"} \/ (c.r.t = "scan" /\ c.lastclosed)) => c.b = 0 \/ s.bs[c.b].st # "dead"   \* a session lost was let go
SearchAnswer(s, c, e) ==
  LET r == e.r
      good(h) == r.t = "searchr" /\ r.ref = c.r.ref /\ r.hits = h /\ r.kind = "none" /\ r.status = 1 /\ r.n = 0
      bad(d) == Failed(r, "searchr") /\ r.ref = c.r.ref /\ r.diag = d
  IN /\ ~e.closed
     /\ IF c.early # <<>> THEN c.st = "get" /\ bad(c.early[1]) /\ r.add = c.early[2]
        ELSE \/ c.st = "done" /\ good(c.hits)
             \/ c.st = "get" /\ ~c.again /\ \E h \in c.avail : good(h)
             \/ c.st = "get" /\ c.again /\ \E h \in c.avail : good(h)
             \/ c.st = "failed" /\ bad(c.last.diag) /\ r.add = c.last.add
             \/ c.st = "lost" /\ bad(2)
             \/ NoSession(s, c) /\ bad(Why(c))
PresentAnswer(s, c, e) ==
  LET r == e.r
      bad(d) == Failed(r, "presentr") /\ r.ref = c.r.ref /\ r.diag = d
  IN /\ ~e.closed
     /\ IF c.early # <<>> THEN c.st = "get" /\ bad(c.early[1]) /\ r.add = c.early[2]
        ELSE \/ c.st = "done" /\ r = [c.last EXCEPT !.ref = c.r.ref]
             \/ (* records known from before *)
                /\ c.st = "get" /\ c.r.start > 0 /\ c.r.num > 0
                /\ r.t = "presentr" /\ r.ref = c.r.ref /\ r.n = c.r.num /\ r.next = c.r.start + c.r.num /\ r.pstatus = 0 /\ r.kind = "recs"
                /\ Len(r.recs) = c.r.num
                /\ \A i \in 1..Len(r.recs) : <<c.key, c.x.dk, c.x.q, c.r.start + i - 1, c.r.syn, c.r.esn, r.recs[i]>> \in s.known
             \/ c.st = "failed" /\ bad(c.last.diag) /\ r.add = c.last.add
             \/ c.st = "lost" /\ bad(2)
             \/ NoSession(s, c) /\ bad(Why(c))
ScanAnswer(s, c, e) ==
  \/ c.st = "done" /\ e.r = c.last /\ e.closed = c.lastclosed
  \/ ~e.closed /\ NoSession(s, c) /\ Failed(e.r, "scanr") /\ e.r.ref = c.r.ref /\ e.r.diag = Why(c)
CrespOk(s, e) ==
  /\ e.s \in DOMAIN s.cur
  /\ LET c == s.cur[e.s] IN
     /\ Let(s, c)
     /\ CASE c.r.t = "none" -> e.r = None
          [] ~c.virt /\ c.r.t = "init" -> InitAnswer(s, c, e)
          [] ~c.virt -> c.st = "passed" /\ e.r = c.last /\ e.closed = c.lastclosed
          [] c.r.t = "search" -> SearchAnswer(s, c, e)
          [] c.r.t = "present" -> PresentAnswer(s, c, e)
          [] c.r.t = "scan" -> ScanAnswer(s, c, e)
          [] ~IsZ(c.r) -> e.r = None /\ ~e.closed
          [] c.r.t = "close" -> e.closed /\ e.r.t = "close" /\ e.r.reason = 8 /\ e.r.ref = c.r.ref
          [] OTHER -> e.closed /\ e.r.t = "close" /\ e.r.reason = 6 /\ e.r.ref = c.r.ref
Cresp(s, e) ==
  LET c == s.cur[e.s]
      s1 == [s EXCEPT !.cur = Del(@, e.s)]
      s2 == CASE ~c.virt /\ c.r.t = "init" /\ ~e.closed -> [s1 EXCEPT !.cl = Put(@, e.s, [key |-> c.key, sets |-> <<>>])]
              [] c.virt /\ c.r.t = "search" /\ e.r.t = "searchr" /\ e.r.diag = 0 -> [s1 EXCEPT !.cl[e.s].sets = Put(@, c.r.set, c.x)]
              [] OTHER -> s1
  IN IF e.closed \/ c.r.t = "none" THEN [s2 EXCEPT !.cl = Del(@, e.s)] ELSE s2

-----------------------------------------------------------------------------
ZAllowed(s, e) ==
  CASE e.op \in {"config", "params", "stop"} -> TRUE
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" -> BreqOk(s, e)
    [] e.op = "bresp" -> TRUE
    [] e.op = "cresp" -> CrespOk(s, e)
    [] e.op = "time" ->        \* sessions not used for long are closed
         \A b \in DOMAIN s.bs : s.bs[b].st = "up" => e.vt - s.bs[b].used <= 2 * s.p.ttl + 1
    [] e.op = "fin" -> /\ DOMAIN s.cur = {}
                       /\ s.stop => \A b \in DOMAIN s.bs : s.bs[b].st = "gone"
    [] OTHER -> FALSE
ZApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> Begin(s, e)
    [] e.op = "breq" -> Breq(s, e)
    [] e.op = "bresp" -> IF e.o \notin DOMAIN s.cur \/ (e.s \in DOMAIN s.bs /\ s.bs[e.s].st \in {"dead", "gone"}) THEN s ELSE Bresp(s, e)
    [] e.op = "cresp" -> Cresp(s, e)
    [] e.op = "stop" -> [s EXCEPT !.stop = TRUE]
    [] OTHER -> s
=============================================================================
