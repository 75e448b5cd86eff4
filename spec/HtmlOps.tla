------------------------------ MODULE HtmlOps ------------------------------
(* The HTML parser as a function from documents (sequences of character      *)
(* codes) to sequences of events.  Adjacent text events count as one.        *)
EXTENDS Integers, Sequences, TLC

LT == 60  GT == 62  SL == 47  EQ == 61  BANG == 33  QM == 63  DASH == 45
DQ == 34  SQ == 39
Space == {32, 9, 13, 10, 12}
IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

(* character at position i, 0 past the end *)
At(d, i) == IF i <= Len(d) THEN d[i] ELSE 0

RECURSIVE WhileIn(_, _, _), WhileNot(_, _, _)
WhileIn(d, i, S) == IF i <= Len(d) /\ d[i] \in S THEN WhileIn(d, i + 1, S) ELSE i
WhileNot(d, i, S) == IF i <= Len(d) /\ d[i] \notin S THEN WhileNot(d, i + 1, S) ELSE i

SkipSpace(d, i) == WhileIn(d, i, Space)
SkipName(d, i) == WhileNot(d, i, Space \cup {SL, GT, LT, EQ})
Part(d, i, j) == SubSeq(d, i, j - 1)          \* [i, j)

Ev(e, t, n, h, v, x) == [e |-> e, t |-> t, n |-> n, h |-> h, v |-> v, x |-> x]
Open(t)  == Ev("open", t, <<>>, FALSE, <<>>, 0)
Close(t) == Ev("close", t, <<>>, FALSE, <<>>, 0)
End(t, c) == Ev("end", t, <<>>, FALSE, <<>>, c)
Attr(t, n, h, v, q) == Ev("attr", t, n, h, v, q)
Text(v)  == Ev("text", <<>>, <<>>, FALSE, v, 0)

AddText(evs, v) ==
  IF v = <<>> THEN evs
  ELSE IF Len(evs) > 0 /\ evs[Len(evs)].e = "text"
       THEN [evs EXCEPT ![Len(evs)].v = @ \o v]
       ELSE Append(evs, Text(v))

(* the rest of a tag after its name and attributes, from position i *)
TagEnd(d, tag, i, evs) ==
  LET j == WhileNot(d, i, {SL, GT, LT})
      ev1 == AddText(evs, Part(d, i, j))
  IN IF At(d, j) = GT THEN [i |-> j + 1, evs |-> Append(ev1, End(tag, 0))]
     ELSE IF At(d, j) = SL
          THEN IF At(d, j + 1) = GT
               THEN [i |-> j + 2, evs |-> Append(ev1, End(tag, 1))]
               ELSE [i |-> j + 1, evs |-> AddText(ev1, <<SL>>)]
          ELSE [i |-> j, evs |-> ev1]

(* one attribute at position i: [i, n, h, v, q]; i unchanged: no attribute *)
Attribute(d, i) ==
  LET j == SkipName(d, i)
      k == SkipSpace(d, j)
  IN IF j = i THEN [i |-> i, n |-> <<>>, h |-> FALSE, v |-> <<>>, q |-> 0]
     ELSE IF At(d, k) # EQ
          THEN [i |-> k, n |-> Part(d, i, j), h |-> FALSE, v |-> <<>>, q |-> 0]
          ELSE LET b == SkipSpace(d, k + 1)
                   q == At(d, b)
               IN IF q \in {DQ, SQ}
                  THEN LET e == WhileNot(d, b + 1, {q})
                       IN [i |-> SkipSpace(d, IF e <= Len(d) THEN e + 1 ELSE e),
                           n |-> Part(d, i, j), h |-> TRUE,
                           v |-> Part(d, b + 1, e), q |-> q]
                  ELSE LET e == WhileNot(d, b, Space \cup {GT})
                       IN [i |-> SkipSpace(d, e), n |-> Part(d, i, j), h |-> TRUE,
                           v |-> Part(d, b, e), q |-> 0]

RECURSIVE Attributes(_, _, _, _)
Attributes(d, tag, i, evs) ==
  IF i > Len(d) \/ d[i] \in {SL, GT, LT} THEN [i |-> i, evs |-> evs]
  ELSE LET a == Attribute(d, i)
       IN IF a.i = i THEN [i |-> i, evs |-> evs]
          ELSE Attributes(d, tag, a.i, Append(evs, Attr(tag, a.n, a.h, a.v, a.q)))

(* end of a comment whose "<!--" has its "!" at position i: the position of  *)
(* the final ">", or the end of the document                                 *)
RECURSIVE CommentEnd(_, _)
CommentEnd(d, k) ==
  IF k > Len(d) THEN k
  ELSE IF d[k] = DASH /\ At(d, k + 1) = DASH /\ At(d, k + 2) = GT THEN k + 2
  ELSE CommentEnd(d, k + 1)

ScriptName == <<115, 99, 114, 105, 112, 116>>
IsScript(n) == Len(n) = 6 /\ \A x \in 1..6 : Lower(n[x]) = ScriptName[x]

(* i: next position to look at; ts: start of the text not yet reported;      *)
(* in: inside a script element                                               *)
RECURSIVE Scan(_, _, _, _, _)
Scan(d, i, ts, in, evs) ==
  IF i > Len(d) THEN AddText(evs, Part(d, ts, i))
  ELSE IF d[i] # LT THEN Scan(d, i + 1, ts, in, evs)
  ELSE
  LET c == At(d, i + 1)
      b == i + 1
      flush == AddText(evs, Part(d, ts, i))
  IN IF ~in /\ c \in {BANG, QM}
     THEN LET e == IF c = BANG /\ At(d, b + 1) = DASH /\ At(d, b + 2) = DASH
                   THEN CommentEnd(d, b + 3)
                   ELSE WhileNot(d, b + 1, {GT})
              r == TagEnd(d, Part(d, b, e), e, Append(flush, Open(Part(d, b, e))))
          IN Scan(d, r.i, r.i, in, r.evs)
     ELSE IF c = SL /\ IsAlpha(At(d, b + 1))
     THEN LET e == SkipName(d, b + 1)
              name == Part(d, b + 1, e)
              ends == IsScript(name) /\ At(d, SkipSpace(d, e)) = GT
          IN IF in /\ ~ends THEN Scan(d, b + 1, ts, in, evs)
             ELSE LET r == TagEnd(d, name, e, Append(flush, Close(name)))
                  IN Scan(d, r.i, r.i, FALSE, r.evs)
     ELSE IF ~in /\ IsAlpha(c)
     THEN LET e == SkipName(d, b)
              name == Part(d, b, e)
              a == Attributes(d, name, SkipSpace(d, e), Append(flush, Open(name)))
              r == TagEnd(d, name, a.i, a.evs)
          IN Scan(d, r.i, r.i, IsScript(name), r.evs)
     ELSE Scan(d, i + 1, ts, in, evs)

Parse(d) == Scan(d, 1, 1, FALSE, <<>>)

(* ------------------------- writing events back out ----------------------- *)
RECURSIVE Echo(_, _)
Echo(evs, i) ==
  IF i > Len(evs) THEN <<>>
  ELSE LET x == evs[i] IN
       (CASE x.e = "open"  -> <<LT>> \o x.t
          [] x.e = "close" -> <<LT, SL>> \o x.t
          [] x.e = "end"   -> IF x.x = 1 THEN <<SL, GT>> ELSE <<GT>>
          [] x.e = "attr"  -> <<32>> \o x.n \o
                IF x.h THEN <<EQ>> \o (IF x.x = 0 THEN x.v ELSE <<x.x>> \o x.v \o <<x.x>>)
                ELSE <<>>
          [] x.e = "text"  -> x.v) \o Echo(evs, i + 1)
EchoOf(evs) == Echo(evs, 1)

Strip(d) == SelectSeq(d, LAMBDA c : c \notin Space)
(* nothing but white space is lost or added, except for the closing quote of *)
(* a value that the end of the document cut short                            *)
Lossless(d) == LET out == Strip(EchoOf(Parse(d)))
                   in == Strip(d)
               IN \/ out = in
                  \/ \E q \in {DQ, SQ} : out = Append(in, q)
(* documents without "<" are one text *)
PlainText(d) == (\A i \in 1..Len(d) : d[i] # LT) =>
                Parse(d) = IF d = <<>> THEN <<>> ELSE <<Text(d)>>

HtmlAllowed(s, e) == e.op = "html" /\ e.evs = Parse(e.doc)
HtmlApply(s, e) == s
=============================================================================
