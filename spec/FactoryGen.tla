----------------------------- MODULE FactoryGen -----------------------------
EXTENDS FactoryOps, Json
CONSTANTS Names, Creators, Depth, DlNames
VARIABLES s, hist
GInit == s = FaStart /\ hist = <<>>
Ev(e, scr) == s' = FaApply(s, e) /\ hist' = Append(hist, scr)
GNext ==
  IF Len(hist) = Depth THEN PrintT(<<"GEN", ToJson(hist)>>) /\ FALSE
  ELSE \/ \E n \in Names, c \in Creators : Ev([op |-> "add", name |-> n, creator |-> c], <<"add", n, c>>)
       \/ \E n \in Names : \/ Ev([op |-> "drop", name |-> n], <<"drop", n>>)
                           \/ Ev([op |-> "exist", name |-> n], <<"exist", n>>)
                           \/ Ev([op |-> "create", name |-> n], <<"create", n>>)
       \/ \E n \in DlNames, d \in BOOLEAN : Ev([op |-> "dl", name |-> n, dir |-> d], <<"dl", n, IF d THEN 1 ELSE 0>>)
GSpec == GInit /\ [][GNext]_<<s, hist>>
(* a name once bound keeps its creator until it is dropped *)
Stable == [][\A n \in DOMAIN s.map :
               (hist' # hist /\ hist'[Len(hist')] # <<"drop", n>>)
               => n \in DOMAIN s'.map /\ s'.map[n] = s.map[n]]_<<s, hist>>
=============================================================================
