------------------------------ MODULE DetTrace ------------------------------
(* Validation of a batch of recorded implementation histories against a      *)
(* specification given as a deterministic transition function.  Each line of *)
(* the file named by the environment variable TRACE is one history           *)
(*     {"ops": [event, ...], ...}                                            *)
(* and becomes one initial state; TLC then steps through it.  An event the   *)
(* specification does not allow is reported as <<"REJECTED", trace, event>>. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS StartOf(_),      \* history      -> abstract initial state
          Allowed(_, _),   \* state, event -> the event is allowed here
          Apply(_, _)      \* state, event -> next state

VARIABLES t, l, st

Traces == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == /\ t \in 1..Len(Traces)
             /\ l = 1
             /\ st = StartOf(Traces[t])

TraceNext == /\ l <= Len(Traces[t].ops)
             /\ LET op == Traces[t].ops[l] IN
                IF Allowed(st, op)
                THEN /\ st' = Apply(st, op)
                     /\ l' = l + 1
                     /\ t' = t
                ELSE /\ PrintT(<<"REJECTED", t, l>>)
                     /\ FALSE

TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, st>>
=============================================================================
