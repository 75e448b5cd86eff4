------------------------------- MODULE UrlMC -------------------------------
EXTENDS UrlOps
CONSTANTS Alphabet, MaxLen
VARIABLE d
Meta == <<[typed |-> TRUE, type |-> <<97>>, text |-> <<97, 32, 98>>],
          [typed |-> TRUE, type |-> <<109>>, text |-> <<120>>]>>
UInit == d = <<>>
UNext == Len(d) < MaxLen /\ \E c \in Alphabet : d' = Append(d, c)
USpec == UInit /\ [][UNext]_d
Literal == LiteralKept(Meta, d)
Safety == EncodedSafe(d)
=============================================================================
