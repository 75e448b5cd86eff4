------------------------------ MODULE SharedMC ------------------------------
(* The session_shared algorithm at the grain of its locks: clients look for a  *)
(* result set in the sessions of their class, wait while one with it is in     *)
(* use, replace an old set, make a new session, and search and present in what *)
(* they hold, all interleaved, with back ends that fail, time that passes and  *)
(* sessions that expire.  Checked: all that is seen of it is what SharedOps    *)
(* allows; nobody is in a session of another; there are never too many         *)
(* sessions or sets; and every request is answered.                            *)
EXTENDS SharedOps
CONSTANTS Clients, MaxReq, MaxSess, MaxSets, Faults, Ticks, Qs

VARIABLES st, pr, k, list, ab, pend, succ, resp, nb, now, faults
vars == <<st, pr, k, list, ab, pend, succ, resp, nb, now, faults>>
TTL == 1
Step1(s, e) == IF s.stop THEN s ELSE IF ZAllowed(s, e) THEN ZApply(s, e) ELSE [s EXCEPT !.stop = TRUE]
Do(e) == st' = Step1(st, e)
Do2(e, f) == st' = Step1(Step1(st, e), f)
Q(i) == <<"q", ToString(i)>>
Hits(q) == IF q = Q(1) THEN 1 ELSE 2
Rec(q) == <<"record", q>>

(* messages *)
InitR(ref) == [t |-> "init", auth |-> "none", open |-> "", group |-> "", user |-> "", pass |-> "", vh |-> <<>>, oi |-> "", ref |-> ref,
               pms |-> 9, mrs |-> 9, opts |-> <<"search", "present", "scan", "named">>]
InitA(ok) == [t |-> "initr", ok |-> ok, diag |-> IF ok THEN 0 ELSE 3, ref |-> "", pms |-> 9, mrs |-> 9, opts |-> <<"search", "present", "scan", "named">>, add |-> ""]
SearchR(n, q) == [t |-> "search", set |-> n, dbs |-> <<"D">>, dk |-> <<"d">>, qt |-> q, rep |-> TRUE, ref |-> "", ssub |-> 0, lslb |-> 1, mspn |-> 0, syn |-> ""]
SearchA(h, d) == [t |-> "searchr", ref |-> "", hits |-> h, kind |-> IF d = 0 THEN "none" ELSE "nsd", status |-> IF d = 0 THEN 1 ELSE 0, n |-> 0, diag |-> d, add |-> ""]
PresentR(n) == [t |-> "present", set |-> n, start |-> 1, num |-> 1, syn |-> "", esn |-> "", ref |-> ""]
PresentA(q, d) == [t |-> "presentr", ref |-> "", n |-> IF d = 0 THEN 1 ELSE 0, next |-> IF d = 0 THEN 2 ELSE 0, pstatus |-> IF d = 0 THEN 0 ELSE 5,
                   kind |-> IF d = 0 THEN "recs" ELSE "nsd", recs |-> IF d = 0 THEN <<Rec(q)>> ELSE <<>>, diag |-> d, add |-> ""]
Ev(op, s, o, r, closed) == [op |-> op, s |-> s, o |-> o, r |-> r, closed |-> closed, vt |-> now]
MCreq(c, r) == Ev("creq", c, c, r, FALSE)
MCresp(c, r, x) == Ev("cresp", c, c, r, x)
MBreq(b, c, r) == Ev("breq", b, c, r, FALSE)
MBresp(b, c, r, x) == Ev("bresp", b, c, r, x)
Bye(b, c) == Ev("breq", b, c, None, TRUE)

P0 == [named |-> TRUE, sets |-> MaxSets, max |-> MaxSess, rttl |-> 1, ttl |-> TTL, restart |-> TRUE, ignore |-> FALSE, pms |-> 0, mrs |-> 0]
Idle0 == [pc |-> "idle", virt |-> FALSE, what |-> "", q |-> <<>>, b |-> 0, n |-> "", again |-> FALSE, ans |-> None, set |-> <<>>]
Init == /\ st = [ZStart EXCEPT !.p = P0] /\ pr = [c \in Clients |-> Idle0] /\ k = [c \in Clients |-> 0]
        /\ list = <<>> /\ ab = <<>> /\ pend = 0 /\ succ = 0 /\ resp = "none" /\ nb = 0 /\ now = 0 /\ faults = 0

Go(c, pc) == [pr EXCEPT ![c].pc = pc]
(* all who wait look again *)
Woken(p) == [x \in Clients |-> CASE p[x].pc = "iw" -> [p[x] EXCEPT !.pc = "i0"] [] p[x].pc = "gw" -> [p[x] EXCEPT !.pc = "g0"] [] OTHER -> p[x]]
Without(b) == SelectSeq(list, LAMBDA x : x # b)
Freed(b) == [ab EXCEPT ![b].use = FALSE]


Start(c) ==
  /\ pr[c].pc = "idle" /\ k[c] < MaxReq
  /\ k' = [k EXCEPT ![c] = @ + 1]
  /\ \/ ~pr[c].virt /\ Do(MCreq(c, InitR(ToString(c)))) /\ pr' = [pr EXCEPT ![c].pc = "i0", ![c].what = "init"]
     \/ /\ pr[c].virt
        /\ \E i \in Qs : /\ Do(MCreq(c, SearchR("A", Q(i))))
                           /\ pr' = [pr EXCEPT ![c].pc = "g0", ![c].what = "search", ![c].q = Q(i), ![c].again = FALSE, ![c].set = <<>>]
     \/ /\ pr[c].virt /\ pr[c].set # <<>>
        /\ Do(MCreq(c, PresentR("A")))
        /\ pr' = [pr EXCEPT ![c].pc = "g0", ![c].what = "present", ![c].q = pr[c].set, ![c].again = FALSE]
  /\ UNCHANGED <<list, ab, pend, succ, resp, nb, now, faults>>

I0(c) ==
  /\ pr[c].pc = "i0"
  /\ IF succ = 0 /\ pend > 0 THEN pr' = Go(c, "iw") /\ UNCHANGED pend
     ELSE IF succ = 0 THEN pr' = Go(c, "mk") /\ pend' = pend + 1
     ELSE pr' = Go(c, "ians") /\ UNCHANGED pend
  /\ UNCHANGED <<st, k, list, ab, succ, resp, nb, now, faults>>
Mk(c) ==
  /\ pr[c].pc = "mk" /\ nb' = nb + 1
  /\ LET first == CHOOSE a \in st.asked : TRUE IN Do(MBreq(100 + nb + 1, c, InitR(first[2])))
  /\ pr' = [pr EXCEPT ![c].pc = "mkr", ![c].b = 100 + nb + 1]
  /\ UNCHANGED <<k, list, ab, pend, succ, resp, now, faults>>
MkR(c) ==
  LET b == pr[c].b  init == pr[c].what = "init" IN
  /\ pr[c].pc = "mkr" /\ pend' = pend - 1
  /\ \/ /\ Do(MBresp(b, c, InitA(TRUE), FALSE))
        /\ list' = Append(list, b) /\ ab' = Put(ab, b, [use |-> TRUE, sets |-> <<>>, seq |-> 0, last |-> now])
        /\ succ' = succ + 1 /\ resp' = IF succ = 0 THEN "ok" ELSE resp
        /\ pr' = Woken([pr EXCEPT ![c].pc = IF init THEN "rel0" ELSE "srch", ![c].n = "0"])
        /\ UNCHANGED faults
     \/ /\ faults < Faults /\ faults' = faults + 1
        /\ Do2(MBresp(b, c, InitA(FALSE), FALSE), Bye(b, c))
        /\ resp' = IF succ = 0 THEN "bad" ELSE resp
        /\ pr' = Woken([pr EXCEPT ![c].pc = IF init THEN "ians" ELSE "ans", ![c].ans = IF pr[c].what = "search" THEN SearchA(0, 3) ELSE PresentA(<<>>, 3)])
        /\ UNCHANGED <<list, ab, succ>>
  /\ UNCHANGED <<k, nb, now>>
Rel0(c) == /\ pr[c].pc = "rel0" /\ ab' = Freed(pr[c].b) /\ pr' = Woken(Go(c, "ians"))
           /\ UNCHANGED <<st, k, list, pend, succ, resp, nb, now, faults>>
IAns(c) ==
  /\ pr[c].pc = "ians"
  /\ Do(MCresp(c, [InitA(resp = "ok") EXCEPT !.ref = ToString(c)], resp # "ok"))
  /\ pr' = [pr EXCEPT ![c].pc = IF resp = "ok" THEN "idle" ELSE "end", ![c].virt = resp = "ok"]
  /\ UNCHANGED <<k, list, ab, pend, succ, resp, nb, now, faults>>

SetIn(b, q) == {i \in 1..Len(ab[b].sets) : ab[b].sets[i].q = q}
Holds(q) == {i \in 1..Len(list) : SetIn(list[i], q) # {}}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Out == Len(list) + pend >= MaxSess
(* the first session with a set that may be replaced; else one with room *)
Replace == {<<i, j>> \in (1..Len(list)) \X (1..MaxSets) :
             ~ab[list[i]].use /\ j <= Len(ab[list[i]].sets) /\ (Out \/ now - ab[list[i]].sets[j].at >= P0.rttl)}
Room == {i \in 1..Len(list) : ~ab[list[i]].use /\ Len(ab[list[i]].sets) < Limit(st)}
DropAt(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
G0(c) ==
  /\ pr[c].pc = "g0"
  /\ IF Holds(pr[c].q) # {}
     THEN LET b == list[Min(Holds(pr[c].q))] IN
          IF ab[b].use THEN pr' = Go(c, "gw") /\ UNCHANGED <<ab, pend>>
          ELSE /\ ab' = [ab EXCEPT ![b].use = TRUE] /\ UNCHANGED pend
               /\ pr' = [pr EXCEPT ![c].pc = "found", ![c].b = b, ![c].n = ab[b].sets[Min(SetIn(b, pr[c].q))].n]
     ELSE IF Replace # {}
     THEN LET x == CHOOSE x \in Replace : \A y \in Replace : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
              b == list[x[1]]
          IN /\ ab' = [ab EXCEPT ![b].use = TRUE, ![b].sets = DropAt(@, x[2])] /\ UNCHANGED pend
             /\ pr' = [pr EXCEPT ![c].pc = "srch", ![c].b = b, ![c].n = ab[b].sets[x[2]].n]
     ELSE IF Room # {}
     THEN LET b == list[Min(Room)] IN
             /\ ab' = [ab EXCEPT ![b].use = TRUE, ![b].seq = @ + 1] /\ UNCHANGED pend
             /\ pr' = [pr EXCEPT ![c].pc = "srch", ![c].b = b, ![c].n = ToString(ab[b].seq + 1)]
     ELSE IF ~Out THEN pr' = Go(c, "mk") /\ pend' = pend + 1 /\ UNCHANGED ab
     ELSE /\ pr' = [pr EXCEPT ![c].pc = "ans", ![c].ans = IF pr[c].what = "search" THEN SearchA(0, 2) ELSE PresentA(<<>>, 2)]
          /\ UNCHANGED <<ab, pend>>
  /\ UNCHANGED <<st, k, list, succ, resp, nb, now, faults>>
Srch(c) ==
  /\ pr[c].pc = "srch" /\ Do(MBreq(pr[c].b, c, SearchR(pr[c].n, pr[c].q)))
  /\ ab' = [ab EXCEPT ![pr[c].b].last = now]
  /\ pr' = Go(c, "srchr") /\ UNCHANGED <<k, list, pend, succ, resp, nb, now, faults>>
Removed(c, b, e, pc, again) ==
  /\ Do2(e, Bye(b, c)) /\ list' = Without(b) /\ ab' = Del(ab, b)
  /\ pr' = Woken([pr EXCEPT ![c].pc = pc, ![c].again = again,
                            ![c].ans = IF pr[c].what = "search" THEN SearchA(0, 2) ELSE PresentA(<<>>, 2)])
SrchR(c) ==
  LET b == pr[c].b IN
  /\ pr[c].pc = "srchr"
  /\ \/ /\ Do(MBresp(b, c, SearchA(Hits(pr[c].q), 0), FALSE))
        /\ pr' = Go(c, "push") /\ UNCHANGED <<list, ab, faults>>
     \/ /\ faults < Faults /\ faults' = faults + 1
        /\ \/ /\ Do(MBresp(b, c, SearchA(0, 14), FALSE))
              /\ pr' = [pr EXCEPT ![c].pc = "rel", ![c].ans = IF pr[c].what = "search" THEN SearchA(0, 14) ELSE PresentA(<<>>, 14)]
              /\ UNCHANGED <<list, ab>>
           \/ ~pr[c].again /\ Removed(c, b, MBresp(b, c, SearchA(0, 2), FALSE), "g0", TRUE)
           \/ Removed(c, b, MBresp(b, c, None, TRUE), "ans", pr[c].again)
  /\ UNCHANGED <<k, pend, succ, resp, nb, now>>
Push(c) ==
  /\ pr[c].pc = "push"
  /\ ab' = [ab EXCEPT ![pr[c].b].sets = Append(@, [n |-> pr[c].n, q |-> pr[c].q, at |-> ab[pr[c].b].last, rc |-> FALSE])]
  /\ pr' = Go(c, "found") /\ UNCHANGED <<st, k, list, pend, succ, resp, nb, now, faults>>
Mine(c) == CHOOSE i \in 1..Len(ab[pr[c].b].sets) : ab[pr[c].b].sets[i].n = pr[c].n
Found(c) ==
  LET b == pr[c].b  x == ab[b].sets[Mine(c)] IN
  /\ pr[c].pc = "found"
  /\ IF pr[c].what = "search"
     THEN pr' = [pr EXCEPT ![c].pc = "rel", ![c].ans = SearchA(Hits(x.q), 0), ![c].set = x.q] /\ UNCHANGED <<st, ab>>
     ELSE IF x.rc THEN pr' = [pr EXCEPT ![c].pc = "rel", ![c].ans = PresentA(x.q, 0)] /\ UNCHANGED <<st, ab>>
     ELSE /\ Do(MBreq(b, c, PresentR(x.n))) /\ pr' = Go(c, "prr") /\ ab' = [ab EXCEPT ![b].last = now]
  /\ UNCHANGED <<k, list, pend, succ, resp, nb, now, faults>>
PrR(c) ==
  LET b == pr[c].b  x == ab[b].sets[Mine(c)] IN
  /\ pr[c].pc = "prr"
  /\ \/ /\ Do(MBresp(b, c, PresentA(x.q, 0), FALSE))
        /\ ab' = [ab EXCEPT ![b].sets[Mine(c)].rc = TRUE]
        /\ pr' = [pr EXCEPT ![c].pc = "rel", ![c].ans = PresentA(x.q, 0)] /\ UNCHANGED <<faults, list>>
     \/ /\ faults < Faults /\ faults' = faults + 1 /\ Removed(c, b, MBresp(b, c, None, TRUE), "ans", pr[c].again)
  /\ UNCHANGED <<k, pend, succ, resp, nb, now>>
Rel(c) == /\ pr[c].pc = "rel" /\ ab' = Freed(pr[c].b) /\ pr' = Woken(Go(c, "ans"))
          /\ UNCHANGED <<st, k, list, pend, succ, resp, nb, now, faults>>
Ans(c) == /\ pr[c].pc = "ans" /\ Do(MCresp(c, pr[c].ans, FALSE)) /\ pr' = Go(c, "idle")
          /\ UNCHANGED <<k, list, ab, pend, succ, resp, nb, now, faults>>
Tick == now < Ticks /\ now' = now + 1 /\ UNCHANGED <<st, pr, k, list, ab, pend, succ, resp, nb, faults>>
Expire == \E b \in DOMAIN ab : /\ ~ab[b].use /\ now - ab[b].last > TTL
                               /\ Do(Bye(b, 0)) /\ list' = Without(b) /\ ab' = Del(ab, b)
                               /\ UNCHANGED <<pr, k, pend, succ, resp, nb, now, faults>>
Act(c) == I0(c) \/ Mk(c) \/ MkR(c) \/ Rel0(c) \/ IAns(c) \/ G0(c) \/ Srch(c) \/ SrchR(c) \/ Push(c) \/ Found(c) \/ PrR(c) \/ Rel(c) \/ Ans(c)
Next == Tick \/ Expire \/ \E c \in Clients : Start(c) \/ Act(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Clients : WF_vars(Act(c))

AllAllowed == ~st.stop
(* a session is used by one at a time, who is at work *)
Using(c) == pr[c].pc \in {"srch", "srchr", "push", "found", "prr", "rel"}
Exclusive == \A c, d \in Clients : c # d /\ Using(c) /\ Using(d) => pr[c].b # pr[d].b
Held == \A b \in DOMAIN ab : ab[b].use => \E c \in Clients : (Using(c) \/ pr[c].pc = "rel0") /\ pr[c].b = b
Limits == /\ Len(list) + pend <= MaxSess
          /\ \A b \in DOMAIN ab : Len(ab[b].sets) <= Limit(st)
          /\ Rng(list) = DOMAIN ab
(* nobody waits for what will not come *)
Waiting == \A c \in Clients : CASE pr[c].pc = "gw" -> \E i \in Holds(pr[c].q) : ab[list[i]].use
                                [] pr[c].pc = "iw" -> succ = 0 /\ pend > 0
                                [] OTHER -> TRUE
Answered == \A c \in Clients : pr[c].pc \notin {"idle", "end"} ~> pr[c].pc \in {"idle", "end"}
=============================================================================
