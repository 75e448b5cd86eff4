------------------------------ MODULE UtilOps ------------------------------
(* The functions filters share, as operators.  A text is a sequence of its    *)
(* bytes.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[i] : i \in 1..Len(q)}
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowS(q) == [i \in 1..Len(q) |-> Low(q[i])]
From(q, i) == SubSeq(q, i, Len(q))
Starts(q, p) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Pos(q, c, i) == {j \in i..Len(q) : q[j] = c}
RECURSIVE Split(_, _)
Split(q, S) ==       \* at each byte in S; n of them give n + 1 parts
  LET P == {j \in 1..Len(q) : q[j] \in S} IN
  IF P = {} THEN <<q>> ELSE <<SubSeq(q, 1, Least(P) - 1)>> \o Split(From(q, Least(P) + 1), S)
NonEmpty(w) == w # <<>>
Words(q) == SelectSeq(Split(q, {32, 9}), NonEmpty)
Cut(q) == IF Pos(q, 0, 1) = {} THEN q ELSE SubSeq(q, 1, Least(Pos(q, 0, 1)) - 1)

-----------------------------------------------------------------------------
(* Patterns for addresses: words, of which one must match; "*" is any text,   *)
(* "?" any byte.  An IPv4 address in IPv6 form also matches as IPv4.          *)
RECURSIVE Glob(_, _)
Glob(p, x) ==
  IF p = <<>> THEN x = <<>>
  ELSE IF p[1] = 42 THEN \E k \in 0..Len(x) : Glob(Tail(p), From(x, k + 1))
  ELSE x # <<>> /\ (p[1] = 63 \/ p[1] = x[1]) /\ Glob(Tail(p), Tail(x))
Mapped == <<58, 58, 102, 102, 102, 102, 58>>           \* ::ffff:
IpMatch(pat, v) ==
  LET ws == SelectSeq(Split(pat, {32}), NonEmpty)
      m(w) == Glob(w, v) \/ (58 \notin Rng(w) /\ Starts(v, Mapped) /\ Glob(w, From(v, 8)))
  IN ws = <<>> \/ \E i \in 1..Len(ws) : m(ws[i])

(* Texts compared as bytes, a prefix being less *)
RECURSIVE Cmp(_, _)
Cmp(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1
             ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE Cmp(Tail(a), Tail(b))

(* URIs *)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
RECURSIVE Decode(_)
Decode(x) ==
  IF x = <<>> THEN <<>>
  ELSE IF x[1] = 43 THEN <<32>> \o Decode(Tail(x))
  ELSE IF x[1] = 37 /\ Len(x) >= 3 /\ Hex(x[2]) < 16 /\ Hex(x[3]) < 16 THEN <<16 * Hex(x[2]) + Hex(x[3])>> \o Decode(From(x, 4))
  ELSE <<x[1]>> \o Decode(Tail(x))
(* percent signs all begin an escape *)
RECURSIVE Clean(_)
Clean(x) == IF x = <<>> THEN TRUE
            ELSE IF x[1] = 37 THEN Len(x) >= 3 /\ Hex(x[2]) < 16 /\ Hex(x[3]) < 16 /\ Clean(From(x, 4)) ELSE Clean(Tail(x))
UriChar(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 95, 46, 33, 126, 42, 39, 40, 41, 37, 43}

(* host/database+database *)
Scheme == <<58, 47, 47>>
Unix == <<117, 110, 105, 120, 58>>
ZurlSplit(x) ==
  LET s == Pos(x, 47, 1)
      i == IF s # {} /\ Least(s) > 1 /\ Starts(From(x, Least(s) - 1), Scheme) THEN Least(s) + 2 ELSE 1
      P == Pos(x, 47, i)
      U == Pos(x, 58, 6)        \* unix:path:databases
  IN IF Starts(x, Unix)
     THEN IF U = {} \/ Least(U) = Len(x) THEN [host |-> x, db |-> <<>>]
          ELSE [host |-> SubSeq(x, 1, Least(U) - 1), db |-> Split(From(x, Least(U) + 1), {43})]
     ELSE IF x = <<>> \/ P = {} \/ Least(P) = Len(x) THEN [host |-> x, db |-> <<>>]
     ELSE [host |-> SubSeq(x, 1, Least(P) - 1), db |-> Split(From(x, Least(P) + 1), {43})]

(* Piggyback: how many records a search answer has, in which element set *)
Pig(e) ==
  IF e.size <= e.small THEN [n |-> e.size, null |-> e.snull, e |-> e.s]
  ELSE IF e.size >= e.large THEN [n |-> 0, null |-> TRUE, e |-> <<>>]
  ELSE [n |-> IF e.medium > e.size THEN e.size ELSE e.medium, null |-> e.mnull, e |-> e.m]
IsEsn(null, x, w) == null = w.null /\ x = w.e

(* Virtual hosts in other information: of category 1, 2, ... *)
OfCat(us, c) == {i \in 1..Len(us) : us[i].k = "vh" /\ us[i].cat = c}
RECURSIVE Hosts(_, _)
Hosts(us, c) == IF OfCat(us, c) = {} THEN <<>> ELSE <<us[Least(OfCat(us, c))].v>> \o Hosts(us, c + 1)
Without(us, n) ==     \* without the first of each of the categories to n
  LET gone == {Least(OfCat(us, c)) : c \in 1..n}
      keep == {i \in 1..Len(us) : i \notin gone}
      RECURSIVE f(_)
      f(i) == IF i > Len(us) THEN <<>> ELSE (IF i \in keep THEN <<us[i]>> ELSE <<>>) \o f(i + 1)
  IN f(1)
RECURSIVE SetHosts(_, _, _)
SetHosts(us, a, c) ==
  IF a = <<>> THEN us
  ELSE LET u == [k |-> "vh", cat |-> c, v |-> a[1]]
       IN SetHosts(IF OfCat(us, c) = {} THEN Append(us, u) ELSE [us EXCEPT ![Least(OfCat(us, c))] = u], Tail(a), c + 1)

(* Lines of a text file: comments and lines that begin with a blank are left  *)
(* out; words                                                                 *)
FileLines(x) ==
  LET ls == Split(x, {10})
      use(w) == w # <<>> /\ w[1] \notin {35, 32, 9}
      us == SelectSeq(ls, use)
  IN [i \in 1..Len(us) |-> Words(us[i])]

(* HTTP: the connection is kept as the client asks for *)
S10 == <<49, 46, 48>>
KeepS == <<107, 101, 101, 112, 45, 97, 108, 105, 118, 101>>
CloseS == <<99, 108, 111, 115, 101>>
Keeps(e) == IF e.ver = S10 THEN ~e.cnull /\ LowS(e.con) = KeepS ELSE e.cnull \/ LowS(e.con) # CloseS
First(h, n) == LET S == {i \in 1..Len(h) : LowS(h[i][1]) = LowS(n)} IN IF S = {} THEN <<>> ELSE h[Least(S)][2]

(* Prefix queries: operators take two operands *)
AndS == <<64, 97, 110, 100>>
OrS == <<64, 111, 114>>
NotS == <<64, 110, 111, 116>>
AttrS == <<64, 97, 116, 116, 114>>
SetS == <<64, 97, 116, 116, 114, 115, 101, 116, 32, 66, 105, 98, 45, 49, 32>>    \* "@attrset Bib-1 "
RECURSIVE Whole(_, _)
Whole(ts, need) ==
  IF ts = <<>> THEN need = 0
  ELSE IF need = 0 THEN FALSE
  ELSE IF ts[1] \in {AndS, OrS, NotS} THEN Whole(Tail(ts), need + 1)
  ELSE IF ts[1] = AttrS THEN Len(ts) > 2 /\ Whole(From(ts, 3), need)
  ELSE Whole(Tail(ts), need - 1)

Made(e) ==
  LET r == e.r IN
  /\ e.wire
  /\ e.set = e.has /\ (e.has => e.res = e.id /\ r.ref = e.id)
  /\ CASE e.what = "close" -> r.t = "close" /\ r.reason = e.err /\ r.msg = e.add
       [] e.what = "initr" -> r.t = "initr" /\ r.ok = (e.err = 0) /\ r.diag = e.err /\ (e.err # 0 => r.add = e.add)
       [] e.what = "searchr" -> /\ r.t = "searchr" /\ r.hits = 0 /\ r.n = 0 /\ r.status = (IF e.err = 0 THEN 1 ELSE 0)
                                /\ r.diag = e.err /\ (e.err # 0 => r.add = e.add /\ r.kind = "nsd")
       [] e.what = "presentr" -> /\ r.t = "presentr" /\ r.n = 0 /\ r.pstatus = (IF e.err = 0 THEN 0 ELSE 5)
                                 /\ r.diag = e.err /\ (e.err # 0 => r.add = e.add /\ r.kind = "nsd")
       [] e.what = "scanr" -> /\ r.t = "scanr" /\ r.entries = <<>> /\ r.status = (IF e.err = 0 THEN 0 ELSE 6)
                              /\ r.diag = e.err /\ (e.err # 0 => r.add = e.add)

UtilAllowed(s, e) ==
  CASE e.op = "ip" -> e.res = IpMatch(e.pat, e.val)
    [] e.op = "norm" -> e.res = LowS(e.x)
    [] e.op = "match" -> e.res = (Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : LowS(e.a[i]) = LowS(e.b[i]))
    [] e.op = "mem" -> e.res = Cmp(e.a, e.b)
    [] e.op = "enc" -> e.back = Cut(e.x) /\ Decode(e.res) = Cut(e.x) /\ (\A i \in 1..Len(e.res) : UriChar(e.res[i])) /\ Clean(e.res)
    [] e.op = "dec" -> Clean(e.x) => e.res = Cut(Decode(e.x))
    [] e.op = "zurl" -> LET z == ZurlSplit(e.x) IN e.host = z.host /\ e.db = z.db /\ e.db2 = z.db /\ e.ok = (z.db # <<>>)
    [] e.op = "hdr" -> e.res = First(e.h, e.name)
    [] e.op = "esn" -> e.resnull = (e.c \notin {"sg", "ce"}) /\ (~e.resnull => e.res = e.name)
    [] e.op = "pig" -> LET w == Pig(e) IN
         /\ e.num = w.n /\ e.num2 = w.n /\ e.num3 = w.n
         /\ IsEsn(e.enull, e.e, w) /\ IsEsn(e.fnull, e.f, w) /\ IsEsn(e.gnull, e.g, w)
    [] e.op = "vh" ->
         LET h == Hosts(e.before, 1) IN
         (CASE e.do = "get" -> e.res = h /\ e.after = e.before
           [] e.do = "remove" -> e.res = h /\ e.n = Len(h) /\ e.after = Without(e.before, Len(h))
           [] e.do = "set" -> e.after = SetHosts(e.before, e.a, 1)
           [] e.do = "set1" -> e.after = SetHosts(e.before, <<e.a[1]>>, 2))
    [] e.op = "ref" -> e.set = e.has /\ (e.has => e.res = e.id) /\ e.copy
    [] e.op = "mk" -> Made(e)
    [] e.op = "diag" -> e.rcode = e.code /\ e.radd = e.add
    [] e.op = "idiag" -> IF e.has THEN e.rcode = e.code /\ e.radd = e.add ELSE e.rcode = -1
    [] e.op = "http" ->
         /\ e.rcode = e.code /\ e.rver = (IF e.ver = S10 THEN S10 ELSE <<49, 46, 49>>)
         /\ e.closed = ~Keeps(e)
         /\ IF Keeps(e) THEN e.ncon = 1 /\ LowS(e.rcon) = KeepS ELSE e.ncon = 0 \/ (e.ncon = 1 /\ LowS(e.rcon) = CloseS)
         /\ (e.how = "body" => e.rbody = e.body)
         /\ (e.how = "det" /\ e.code # 200 => e.has)
    [] e.op = "plain" -> ~e.before /\ ~e.no /\ e.ok /\ ~e.after /\ e.lines = FileLines(e.x)
    [] e.op = "pqf" -> LET ok == Whole(Words(e.x), 1) IN e.ok = ok /\ (ok => e.res = SetS \o e.x)
    [] OTHER -> FALSE
UtilApply(s, e) == s
=============================================================================
