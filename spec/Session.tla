------------------------------- MODULE Session -------------------------------
(* Concurrent creation of sessions at the grain of the shared counter's      *)
(* reads and writes: the locking discipline gives uniqueness for every       *)
(* interleaving.  The sequential meaning of sessions is in SessionOps.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* ---------------------------- 2. concurrent ------------------------------ *)
CONSTANTS Threads, PerThread
VARIABLES ctr, lock, pc, got, made
cvars == <<ctr, lock, pc, got, made>>
NONE == "none"

CInit == /\ ctr = 0
         /\ lock = NONE
         /\ pc = [t \in Threads |-> "idle"]
         /\ got = [t \in Threads |-> 0]
         /\ made = [t \in Threads |-> <<>>]

Acquire(t) == /\ pc[t] = "idle" /\ Len(made[t]) < PerThread /\ lock = NONE
              /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "read"]
              /\ UNCHANGED <<ctr, got, made>>
ReadCtr(t) == /\ pc[t] = "read"
              /\ got' = [got EXCEPT ![t] = ctr]
              /\ pc' = [pc EXCEPT ![t] = "write"]
              /\ UNCHANGED <<ctr, lock, made>>
WriteCtr(t) == /\ pc[t] = "write"
               /\ ctr' = got[t] + 1
               /\ pc' = [pc EXCEPT ![t] = "take"]
               /\ UNCHANGED <<lock, got, made>>
TakeId(t) == /\ pc[t] = "take"
             /\ made' = [made EXCEPT ![t] = Append(@, ctr)]
             /\ pc' = [pc EXCEPT ![t] = "unlock"]
             /\ UNCHANGED <<ctr, lock, got>>
Release(t) == /\ pc[t] = "unlock"
              /\ lock' = NONE
              /\ pc' = [pc EXCEPT ![t] = "idle"]
              /\ UNCHANGED <<ctr, got, made>>

CNext == \E t \in Threads : \/ Acquire(t) \/ ReadCtr(t) \/ WriteCtr(t)
                            \/ TakeId(t) \/ Release(t)
CFair == \A t \in Threads : WF_cvars(Acquire(t) \/ ReadCtr(t) \/ WriteCtr(t)
                                     \/ TakeId(t) \/ Release(t))
CSpec == CInit /\ [][CNext]_cvars /\ CFair

UniqueIds == \A a, b \in Threads : \A i \in 1..Len(made[a]), j \in 1..Len(made[b]) :
                made[a][i] = made[b][j] => a = b /\ i = j
NeverZero == \A a \in Threads : \A i \in 1..Len(made[a]) : made[a][i] > 0
AllMade == <>(\A t \in Threads : Len(made[t]) = PerThread)
=============================================================================
