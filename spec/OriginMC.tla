------------------------------ MODULE OriginMC ------------------------------
EXTENDS OriginOps, Json
CONSTANTS Peers, Binds, Depth
Hops == {<<"8.8.8.8">>, <<"1.1.1.1,", "2.2.2.2">>, <<"">>}
VARIABLES s, hist
OInit == s = OgStart /\ hist = <<>>
Ev(e, scr) == OgAllowed(s, e) /\ s' = OgApply(s, e) /\ hist' = Append(hist, scr)
ONext ==
  IF Len(hist) = Depth THEN PrintT(<<"GEN", ToJson(hist)>>) /\ FALSE
  ELSE \/ \E p \in Peers, b \in Binds :
            s.parts = <<>> /\ Ev([op |-> "set", words |-> <<p, b>>, id |-> Len(hist)], <<"set", Len(hist), p, b>>)
       \/ \E h \in Hops : s.parts # <<>> /\ Ev([op |-> "set", words |-> h, id |-> Len(hist)], <<"set", Len(hist)>> \o h)
       \/ \E c \in {"", "u1"} : Ev([op |-> "custom", txt |-> c], <<"custom", c>>)
       \/ \E n \in {0, 3} : Ev([op |-> "max", n |-> n], <<"max", n>>)
       \/ s' = s /\ hist' = Append(hist, <<"get">>)
OSpec == OInit /\ [][ONext]_<<s, hist>>
(* forwarding headers never hide the address of the connected peer, nor the  *)
(* listening address                                                         *)
PeerKept == [][s.parts # <<>> => LET n == Len(s.parts) m == Len(s'.parts) IN
                 s'.parts[m] = s.parts[n] /\ s'.parts[m - 1] = s.parts[n - 1]]_<<s, hist>>
=============================================================================
