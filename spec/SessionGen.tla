----------------------------- MODULE SessionGen -----------------------------
(* Behaviours of SessionOps, printed as scripts for the harness.             *)
EXTENDS SessionOps, Json
CONSTANTS Slots, Depth
VARIABLES s, hist

Fresh == IF s.issued = {} THEN 1 ELSE 1 + CHOOSE m \in s.issued : \A x \in s.issued : x <= m
LiveSlots == DOMAIN s.slots

Event(e, script) == /\ SesAllowed(s, e)
                    /\ s' = SesApply(s, e)
                    /\ hist' = Append(hist, script)

GInit == s = SesStart /\ hist = <<>>
GStep ==
  \/ \E i \in Slots : Event([op |-> "new", slot |-> i, id |-> Fresh, closed |-> FALSE], <<"new", i>>)
  \/ \E i \in Slots, j \in LiveSlots :
        Event([op |-> "copy", slot |-> i, src |-> j, id |-> s.slots[j].id,
               closed |-> s.slots[j].closed], <<"copy", i, j>>)
  \/ \E i, j \in LiveSlots :
        Event([op |-> "assign", slot |-> i, src |-> j, id |-> s.slots[j].id,
               closed |-> s.slots[j].closed], <<"assign", i, j>>)
  \/ \E i \in LiveSlots :
        \/ Event([op |-> "close", slot |-> i, id |-> s.slots[i].id, closed |-> TRUE], <<"close", i>>)
        \/ Event([op |-> "look", slot |-> i, id |-> s.slots[i].id, closed |-> s.slots[i].closed], <<"look", i>>)
        \/ Event([op |-> "mcreate", slot |-> i], <<"mcreate", i>>)
        \/ Event([op |-> "mrelease", slot |-> i], <<"mrelease", i>>)
        \/ Event([op |-> "mexist", slot |-> i, res |-> s.slots[i].id \in s.mapped], <<"mexist", i>>)
  \/ \E i, j \in LiveSlots :
        Event([op |-> "cmp", slot |-> i, src |-> j, eq |-> s.slots[i].id = s.slots[j].id,
               lt |-> s.slots[i].id < s.slots[j].id, gt |-> s.slots[j].id < s.slots[i].id], <<"cmp", i, j>>)

GNext == IF Len(hist) = Depth
         THEN PrintT(<<"GEN", ToJson(hist)>>) /\ FALSE
         ELSE GStep
GSpec == GInit /\ [][GNext]_<<s, hist>>

(* a closed session object stays closed until overwritten by another session *)
CloseSticks == [][\A i \in DOMAIN s.slots :
                    (s.slots[i].closed /\ s'.slots[i].id = s.slots[i].id
                     /\ hist' # hist /\ hist'[Len(hist')][1] \notin {"copy", "assign"})
                    => s'.slots[i].closed]_<<s, hist>>
=============================================================================
