------------------------------ MODULE HttpBase ------------------------------
(* HTTP as Metaproxy's own answers speak it; header names as generated.       *)
EXTENDS FiltBase

RECURSIVE Hdr(_, _)
(* the value of the first header called one of names, or "" *)
Hdr(h, names) == IF h = <<>> THEN "" ELSE IF h[1][1] \in names THEN h[1][2] ELSE Hdr(Tail(h), names)
Hdrs(h, names) == SelectSeq(h, LAMBDA x : x[1] \in names)
Conn == {"Connection", "connection", "CONNECTION"}
CType == {"Content-Type", "content-type"}
(* the connection is kept after a request answered by Metaproxy itself *)
Keep(r) == IF r.ver = "1.0" THEN Hdr(r.h, Conn) = "Keep-Alive" ELSE Hdr(r.h, Conn) # "close"
(* e (a cresp) answers request r with this code; wasclosed: before that *)
Answers(e, r, code, wasclosed) ==
  /\ e.r.t = "httpr" /\ e.r.code = code
  /\ e.r.ver = (IF r.ver = "1.0" THEN "1.0" ELSE "1.1")
  /\ e.closed = (wasclosed \/ ~Keep(r))
  /\ (Hdr(e.r.h, {"Connection"}) = "Keep-Alive") = Keep(r)

Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
RECURSIVE UriDec(_)
UriDec(q) ==
  IF q = <<>> THEN <<>>
  ELSE IF q[1] = 43 THEN <<32>> \o UriDec(Tail(q))
  ELSE IF q[1] = 37 /\ Len(q) >= 3 /\ Hex(q[2]) >= 0 /\ Hex(q[3]) >= 0
       THEN <<16 * Hex(q[2]) + Hex(q[3])>> \o UriDec(SubSeq(q, 4, Len(q)))
  ELSE <<q[1]>> \o UriDec(Tail(q))
Upto(q, c) == LET K == {i \in 1..Len(q) : q[i] = c} IN
              IF K = {} THEN q ELSE SubSeq(q, 1, (CHOOSE i \in K : \A j \in K : i <= j) - 1)
After(q, c) == LET K == {i \in 1..Len(q) : q[i] = c} IN
               IF K = {} THEN q ELSE SubSeq(q, (CHOOSE i \in K : \A j \in K : j <= i) + 1, Len(q))
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
=============================================================================
