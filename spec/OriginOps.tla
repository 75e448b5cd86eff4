------------------------------ MODULE OriginOps ------------------------------
(* The origin of a package: the addresses it came through, most remote first *)
(* in the sequence; the last is the address of the listening socket.         *)
EXTENDS Integers, Sequences, TLC

OgStart == [parts |-> <<>>, id |-> 0, max |-> 0, custom |-> ""]

(* addresses arrive as words; the first call gives peer and listener *)
OgAllowed(s, e) ==
  CASE e.op \in {"set", "custom", "max"} -> TRUE
    [] e.op = "get" ->
         LET n == Len(s.parts) IN
         /\ e.address = IF n = 0 THEN "" ELSE IF n = 1 THEN s.parts[1] ELSE s.parts[n - 1]
         /\ e.bind = IF n = 0 THEN "" ELSE s.parts[n]
         /\ e.max = s.max
         /\ e.print = (IF n = 0 \/ s.parts[1] = "" THEN "0" ELSE s.parts[1])
                      \o ":" \o ToString(s.id)
                      \o (IF s.custom = "" THEN "" ELSE ":" \o s.custom)
    [] OTHER -> FALSE
OgApply(s, e) ==
  CASE e.op = "set"    -> [s EXCEPT !.parts = e.words \o @, !.id = e.id]
    [] e.op = "custom" -> [s EXCEPT !.custom = e.txt]
    [] e.op = "max"    -> [s EXCEPT !.max = e.n]
    [] OTHER -> s
=============================================================================
