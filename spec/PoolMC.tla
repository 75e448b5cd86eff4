------------------------------- MODULE PoolMC -------------------------------
(* The pool's algorithm at the grain of its locks: a thread that waits is     *)
(* woken by a put (or for no reason); a put starts a thread when there are as *)
(* many messages waiting as threads waiting and the maximum is not reached.   *)
(* Some messages are handled only once another one is being handled.  Checked: *)
(* its externally visible events are allowed by PoolOps, and every message    *)
(* gets its result, also when all threads but one wait for another message.   *)
EXTENDS PoolOps
CONSTANTS N, MinT, MaxT, Grp

VARIABLES in, out, wk, nput, st, cl
\* wk[i]: state of thread i; "none" not started, "wait", "woken", "got" <<m>>, "run" <<m>>
vars == <<in, out, wk, nput, st, cl>>
W == 1..Max(MinT, MaxT)
Msgs == 1..N
\* message m waits for m + 1 to be begun, if it is odd and not the last
Needs(m) == IF m % 2 = 1 /\ m < N THEN m + 1 ELSE 0
Group(m) == 1 + (m % Grp)
Begun(m) == m \in st.run \cup st.done \cup st.over
Step1(s, e) == IF s.main # "bad" /\ PAllowed(s, e) THEN PApply(s, e) ELSE [s EXCEPT !.main = "bad"]
Do(e) == st' = Step1(st, e)
None == [s |-> "none", m |-> 0]
Waiting == [s |-> "wait", m |-> 0]
Woken == [s |-> "woken", m |-> 0]
IsWaiting(w) == w.s \in {"wait", "woken"}

Init == /\ in = <<>> /\ out = <<>> /\ nput = 0 /\ cl = FALSE
        /\ wk = [i \in W |-> IF i <= MinT THEN Woken ELSE None]
        /\ st = PApply(PStart, [op |-> "pool", min |-> MinT, max |-> MaxT])
NWaiting == Cardinality({i \in W : IsWaiting(wk[i])})
WaitingIn(w) == {i \in W : w[i].s = "wait"}
Started == LET unused == {i \in W : wk[i].s = "none"} IN
           IF NWaiting <= Len(in) /\ unused # {} THEN [wk EXCEPT ![CHOOSE i \in unused : TRUE] = Woken] ELSE wk
Put == /\ nput < N /\ st.main = "idle"
       /\ Do([op |-> "put", m |-> nput + 1, g |-> Group(nput + 1)])
       /\ in' = Append(in, nput + 1) /\ nput' = nput + 1
       /\ IF WaitingIn(Started) = {} THEN wk' = Started
          ELSE \E i \in WaitingIn(Started) : wk' = [Started EXCEPT ![i] = Woken]
       /\ UNCHANGED <<out, cl>>
PutDone == st.main = "put" /\ Do([op |-> "putdone"]) /\ UNCHANGED <<in, out, wk, nput, cl>>
Take(i) == /\ wk[i].s = "woken"
           /\ IF in = <<>> THEN wk' = [wk EXCEPT ![i] = Waiting] /\ UNCHANGED in
              ELSE wk' = [wk EXCEPT ![i] = [s |-> "got", m |-> Head(in)]] /\ in' = Tail(in)
           /\ UNCHANGED <<out, nput, st, cl>>
Begin(i) == /\ wk[i].s = "got" /\ wk' = [wk EXCEPT ![i].s = "run"]
            /\ Do([op |-> "handle", m |-> wk[i].m, t |-> i])
            /\ UNCHANGED <<in, out, nput, cl>>
Finish(i) == /\ wk[i].s = "run" /\ (Needs(wk[i].m) = 0 \/ Begun(Needs(wk[i].m)) \/ Needs(wk[i].m) \in st.freed)
             /\ wk' = [wk EXCEPT ![i] = [s |-> "put", m |-> wk[i].m]]
             /\ Do([op |-> "handled", m |-> wk[i].m, null |-> FALSE])
             /\ UNCHANGED <<in, out, nput, cl>>
Output(i) == /\ wk[i].s = "put" /\ out' = Append(out, wk[i].m)
             /\ wk' = [wk EXCEPT ![i] = Woken]
             /\ UNCHANGED <<in, nput, st, cl>>
Result == /\ out # <<>> /\ st.main = "idle" /\ out' = Tail(out)
          /\ Do([op |-> "result", m |-> Head(out), t |-> 0, info |-> TRUE])
          /\ UNCHANGED <<in, wk, nput, cl>>
(* cleanup of group 1, all at once *)
RECURSIVE Steps(_, _)
Steps(s, es) == IF es = <<>> THEN s
                ELSE Steps(Step1(s, es[1]), Tail(es))
RECURSIVE Asks(_)
Asks(q) == IF q = <<>> THEN <<>>
           ELSE <<[op |-> "ask", m |-> q[1], r |-> Group(q[1]) = 1]>>
                \o (IF Group(q[1]) = 1 THEN <<[op |-> "free", m |-> q[1]]>> ELSE <<>>) \o Asks(Tail(q))
Cleanup == /\ ~cl /\ st.main = "idle" /\ cl' = TRUE
           /\ st' = Steps(st, <<[op |-> "cleanup", g |-> 1]>> \o Asks(in) \o <<[op |-> "cleaned", g |-> 1]>>)
           /\ in' = SelectSeq(in, LAMBDA m : Group(m) # 1)
           /\ UNCHANGED <<out, wk, nput>>
Next == \/ Put \/ PutDone \/ Result \/ (Grp > 1 /\ Cleanup)
        \/ \E i \in W : Take(i) \/ Begin(i) \/ Finish(i) \/ Output(i)
Fair == WF_vars(Put) /\ WF_vars(PutDone) /\ WF_vars(Result)
        /\ \A i \in W : WF_vars(Take(i)) /\ WF_vars(Begin(i)) /\ WF_vars(Finish(i)) /\ WF_vars(Output(i))
Spec == Init /\ [][Next]_vars /\ Fair

AllAllowed == st.main # "bad"
Conserved == \A m \in Msgs : m <= nput =>
   Cardinality({x \in {<<1>>, <<2>>, <<3>>, <<4>>} :
      CASE x = <<1>> -> m \in In(in) [] x = <<2>> -> \E i \in W : wk[i].s \in {"got", "run", "put"} /\ wk[i].m = m
        [] x = <<3>> -> m \in In(out) [] x = <<4>> -> m \in st.over}) = 1
\* no message waits while a thread could take it
Progress == \A i \in W : in # <<>> => (\E j \in W : wk[j].s # "wait" ) \/ FALSE
AllDone == <>[](nput = N /\ in = <<>> /\ out = <<>> /\ st.over = Msgs)
=============================================================================
