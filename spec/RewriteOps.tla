------------------------------ MODULE RewriteOps ------------------------------
(* The query_rewrite filter: queries are rewritten by a stylesheet, terms are *)
(* converted from one character set to another.                               *)
(* A query is a tree of operators, result sets and terms with attributes      *)
(* <<set, type, value>>; a term is its bytes.                                 *)
EXTENDS FiltBase

QStart == [p |-> [rules |-> <<>>, from |-> "", to |-> ""], cur |-> <<>>]

(* -------------------------------------------------------- the stylesheets *)
Failed1 == [k |-> "fail"]
Up(b) == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b
Mapped(rule, a) == IF a[2] = 1 /\ a[3] \in DOMAIN rule.m THEN <<a[1], a[2], rule.m[a[3]]>> ELSE a
OnTerm(rule, x) ==
  CASE rule.k = "map" -> [x EXCEPT !.a = [i \in 1..Len(x.a) |-> Mapped(rule, x.a[i])]]
    [] rule.k = "drop" -> [x EXCEPT !.a = SelectSeq(x.a, LAMBDA y : y[2] # rule.n)]
    [] rule.k = "upper" -> [x EXCEPT !.term = [i \in 1..Len(x.term) |-> Up(x.term[i])]]
RECURSIVE Leaves(_, _), Swap(_), Left(_), HasTerm(_)
HasTerm(t) == t.k = "apt" \/ (t.k = "op" /\ (HasTerm(t.l) \/ HasTerm(t.r)))
Leaves(rule, t) == IF t.k = "op" THEN [t EXCEPT !.l = Leaves(rule, t.l), !.r = Leaves(rule, t.r)]
                   ELSE IF t.k = "apt" THEN OnTerm(rule, t) ELSE t
Swap(t) == IF t.k = "op" THEN [t EXCEPT !.l = Swap(t.r), !.r = Swap(t.l)] ELSE t
Left(t) == IF t.k = "op" THEN Left(t.l) ELSE t
Rule(rule, t) ==
  CASE rule.k = "id" -> t
    [] rule.k \in {"map", "drop", "upper"} -> Leaves(rule, t)
    [] rule.k = "and" -> [k |-> "op", op |-> "and", l |-> t, r |-> rule.t]
    [] rule.k = "swap" -> Swap(t)
    [] rule.k = "left" -> Left(t)
    [] rule.k = "noterm" /\ ~HasTerm(t) -> t
    [] OTHER -> Failed1                         \* no query comes of it
RECURSIVE Rules(_, _)
Rules(rs, t) == IF t.k = "fail" \/ rs = <<>> THEN t ELSE Rules(Tail(rs), Rule(Head(rs), t))

(* ------------------------------------------------------ the character sets *)
Cont(b) == b >= 128 /\ b <= 191
(* code points, as far as there are some: the library converts what it can    *)
(* of a term, and refuses one of which it can convert nothing                 *)
RECURSIVE FromUtf8(_)
FromUtf8(q) ==
  IF q = <<>> THEN <<>>
  ELSE LET b == q[1]
           n == CASE b < 128 -> 1 [] b >= 194 /\ b <= 223 -> 2 [] b >= 224 /\ b <= 239 -> 3 [] b >= 240 /\ b <= 244 -> 4 [] OTHER -> 0
       IN IF n = 0 \/ Len(q) < n \/ \E i \in 2..n : ~Cont(q[i]) THEN <<>>
          ELSE LET c == CASE n = 1 -> b [] n = 2 -> (b - 192) * 64 + q[2] - 128
                          [] n = 3 -> ((b - 224) * 64 + q[2] - 128) * 64 + q[3] - 128
                          [] OTHER -> (((b - 240) * 64 + q[2] - 128) * 64 + q[3] - 128) * 64 + q[4] - 128
               IN <<c>> \o FromUtf8(SubSeq(q, n + 1, Len(q)))
Utf8(c) == CASE c < 128 -> <<c>> [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
             [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE ToUtf8(_)
ToUtf8(q) == IF q = <<>> THEN <<>> ELSE Utf8(q[1]) \o ToUtf8(Tail(q))
Decode(q, cs) == IF cs = "UTF-8" THEN FromUtf8(q) ELSE q
RECURSIVE ToLatin(_)
ToLatin(q) == IF q = <<>> \/ q[1] > 255 THEN <<>> ELSE <<q[1]>> \o ToLatin(Tail(q))
Encode(q, cs) == IF cs = "UTF-8" THEN ToUtf8(q) ELSE ToLatin(q)
Known == {"UTF-8", "ISO-8859-1"}
Converts(p) == p.from \in Known /\ p.to \in Known
Text(p, x) == IF x.tt = "general" THEN Encode(Decode(x.term, p.from), p.to) ELSE x.term
RECURSIVE Sound(_, _), Converted(_, _)
Converted(p, t) == CASE t.k = "op" -> [t EXCEPT !.l = Converted(p, t.l), !.r = Converted(p, t.r)]
                     [] t.k = "apt" -> [t EXCEPT !.term = Text(p, t)] [] OTHER -> t
Sound(p, t) == CASE t.k = "op" -> Sound(p, t.l) /\ Sound(p, t.r) [] t.k = "apt" -> Text(p, t) # <<>> [] OTHER -> TRUE
Convert(p, t) == IF ~Converts(p) \/ t.k \notin {"op", "apt"} THEN t
                 ELSE IF ~Sound(p, t) THEN Failed1
                 ELSE Converted(p, t)
(* what is searched for; fail: nothing *)
Rewritten(p, t) == IF p.rules = <<>> THEN Convert(p, t) ELSE LET u == Rules(p.rules, t) IN IF u.k = "fail" THEN u ELSE Convert(p, u)

QAllowed(s, e) ==
  CASE e.op \in {"config", "params", "bresp"} -> e.op = "config" => e.ok
    [] e.op = "creq" -> e.s \notin DOMAIN s.cur
    [] e.op = "breq" -> Ended(e) \/ (e.s \in DOMAIN s.cur /\ ~s.cur[e.s].sent /\ e.r = s.cur[e.s].ask)
    [] e.op = "cresp" ->
         /\ e.s \in DOMAIN s.cur
         /\ LET c == s.cur[e.s] IN
            CASE c.r.t = "none" -> e.r = None
              [] c.ask.t = "fail" -> /\ ~c.sent /\ Failed(e.r, "searchr") /\ e.r.ref = c.r.ref
                                     /\ e.r.kind = "nsd" /\ e.r.diag # 0 /\ e.r.add # "" /\ ~e.closed
              [] OTHER -> c.sent /\ e.r = c.last /\ e.closed = c.lastclosed
    [] e.op = "fin" -> DOMAIN s.cur = {}
    [] OTHER -> FALSE

Asked(p, r) == IF r.t # "search" THEN r
               ELSE LET u == Rewritten(p, r.tree) IN IF u.k = "fail" THEN [t |-> "fail"] ELSE [r EXCEPT !.tree = u]
QApply(s, e) ==
  CASE e.op = "params" -> [s EXCEPT !.p = e.p]
    [] e.op = "creq" -> [s EXCEPT !.cur = Put(@, e.s, [r |-> e.r, ask |-> Asked(s.p, e.r), sent |-> FALSE, last |-> None, lastclosed |-> FALSE])]
    [] e.op = "breq" -> IF Ended(e) THEN s ELSE [s EXCEPT !.cur[e.s].sent = TRUE]
    [] e.op = "bresp" -> [s EXCEPT !.cur[e.s].last = e.r, !.cur[e.s].lastclosed = e.closed]
    [] e.op = "cresp" -> [s EXCEPT !.cur = Del(@, e.s)]
    [] OTHER -> s
=============================================================================
