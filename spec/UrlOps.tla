------------------------------- MODULE UrlOps -------------------------------
(* URL recipes: text with references ${field[pattern/result/flags]} and      *)
(* %{...} (URI encoded) to the metadata of a record.  All texts are          *)
(* sequences of character codes.                                             *)
EXTENDS Integers, Sequences, TLC

BS == 92  LB == 91  RB == 93  SL == 47  RC == 125  LC == 123
DOL == 36 PCT == 37 DOT == 46 STAR == 42 PLUS == 43 QM == 63
LP == 40  RP == 41  CAR == 94 AMP == 38
At(d, i) == IF i >= 1 /\ i <= Len(d) THEN d[i] ELSE 0

(* --------------------- the reference inside braces ----------------------- *)
(* from position i: variable, pattern, replacement, mode, position after     *)
RECURSIVE Ref(_, _, _, _, _, _, _, _)
Ref(d, i, c0, step, v, p, r, m) ==
  IF i > Len(d) THEN [i |-> i, v |-> v, p |-> p, r |-> r, m |-> m]
  ELSE LET c == d[i]
           esc == c0 = BS
       IN IF c = RC /\ ~esc THEN [i |-> i + 1, v |-> v, p |-> p, r |-> r, m |-> m]
          ELSE IF step = 0
               THEN IF c = LB /\ ~esc THEN Ref(d, i + 1, c, 1, v, p, r, m)
                    ELSE Ref(d, i + 1, c, 0, Append(v, c), p, r, m)
          ELSE IF c = RB /\ ~esc THEN Ref(d, i + 1, c, 4, v, p, r, m)
          ELSE IF step = 1
               THEN IF c = SL /\ ~esc THEN Ref(d, i + 1, c, 2, v, p, r, m)
                    ELSE Ref(d, i + 1, c, 1, v, Append(p, c), r, m)
          ELSE IF step = 2
               THEN IF c = SL /\ ~esc THEN Ref(d, i + 1, c, 3, v, p, r, m)
                    ELSE Ref(d, i + 1, c, 2, v, p, Append(r, c), m)
          ELSE IF step = 3 THEN Ref(d, i + 1, c, 3, v, p, r, Append(m, c))
          ELSE Ref(d, i + 1, c, 4, v, p, r, m)

(* ---------------------- a small regular expression ----------------------- *)
(* literals, ".", \s, \d, escaped literals, * + ? on single characters, one  *)
(* level of capture, ^ first and $ last                                      *)
Tk(k, c, q) == [k |-> k, c |-> c, q |-> q]
Quant(p, i) == CASE At(p, i) = STAR -> 1 [] At(p, i) = PLUS -> 2 [] At(p, i) = QM -> 3 [] OTHER -> 0
RECURSIVE Toks(_, _)
Toks(p, i) ==
  IF i > Len(p) THEN <<>>
  ELSE LET c == p[i]
           e == c = BS
           x == IF e THEN At(p, i + 1) ELSE c
           n == IF e THEN i + 2 ELSE i + 1
           kind == CASE e /\ x = 115 -> "sp" [] e /\ x = 100 -> "dig"
                     [] ~e /\ x = DOT -> "any" [] ~e /\ x = LP -> "open"
                     [] ~e /\ x = RP -> "close" [] ~e /\ x = CAR -> "bol"
                     [] ~e /\ x = DOL -> "eol" [] OTHER -> "chr"
           q == IF kind \in {"open", "close", "bol", "eol"} THEN 0 ELSE Quant(p, n)
       IN <<Tk(kind, x, q)>> \o Toks(p, IF q = 0 THEN n ELSE n + 1)

Fold(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
One(t, c, ic) == CASE t.k = "any" -> TRUE
                   [] t.k = "sp"  -> c \in {32, 9, 10, 11, 12, 13}
                   [] t.k = "dig" -> c >= 48 /\ c <= 57
                   [] t.k = "chr" -> IF ic THEN Fold(c) = Fold(t.c) ELSE c = t.c
                   [] OTHER -> FALSE
NoMatch == <<0, 0, 0>>
(* match tokens ts[k..] against x from position j; result <<end, group start, *)
(* group end>> with end the position after the match                         *)
RECURSIVE Mt(_, _, _, _, _, _, _), Rep(_, _, _, _, _, _, _)
Mt(ts, k, x, j, ic, gs, ge) ==
  IF k > Len(ts) THEN <<j, gs, ge>>
  ELSE LET t == ts[k] IN
    CASE t.k = "open"  -> Mt(ts, k + 1, x, j, ic, j, ge)
      [] t.k = "close" -> Mt(ts, k + 1, x, j, ic, gs, j)
      [] t.k = "bol"   -> IF j = 1 THEN Mt(ts, k + 1, x, j, ic, gs, ge) ELSE NoMatch
      [] t.k = "eol"   -> IF j = Len(x) + 1 THEN Mt(ts, k + 1, x, j, ic, gs, ge) ELSE NoMatch
      [] t.q = 0 -> IF j <= Len(x) /\ One(t, x[j], ic) THEN Mt(ts, k + 1, x, j + 1, ic, gs, ge) ELSE NoMatch
      [] t.q = 1 -> Rep(ts, k, x, j, ic, gs, ge)
      [] t.q = 2 -> IF j <= Len(x) /\ One(t, x[j], ic) THEN Rep(ts, k, x, j + 1, ic, gs, ge) ELSE NoMatch
      [] OTHER   -> LET w == IF j <= Len(x) /\ One(t, x[j], ic)
                             THEN Mt(ts, k + 1, x, j + 1, ic, gs, ge) ELSE NoMatch
                    IN IF w # NoMatch THEN w ELSE Mt(ts, k + 1, x, j, ic, gs, ge)
Rep(ts, k, x, j, ic, gs, ge) ==
  LET w == IF j <= Len(x) /\ One(ts[k], x[j], ic) THEN Rep(ts, k, x, j + 1, ic, gs, ge) ELSE NoMatch
  IN IF w # NoMatch THEN w ELSE Mt(ts, k + 1, x, j, ic, gs, ge)

RECURSIVE Fmt(_, _, _, _)
Fmt(r, i, whole, group) ==
  IF i > Len(r) THEN <<>>
  ELSE IF r[i] = DOL /\ At(r, i + 1) = AMP THEN whole \o Fmt(r, i + 2, whole, group)
  ELSE IF r[i] = DOL /\ At(r, i + 1) = 49 THEN group \o Fmt(r, i + 2, whole, group)
  ELSE IF r[i] = BS /\ i < Len(r) THEN <<r[i + 1]>> \o Fmt(r, i + 2, whole, group)
  ELSE <<r[i]>> \o Fmt(r, i + 1, whole, group)

RECURSIVE Subst(_, _, _, _, _, _, _)
Subst(ts, x, j, from, r, ic, all) ==
  IF j > Len(x) + 1 THEN SubSeq(x, from, Len(x))
  ELSE LET w == Mt(ts, 1, x, j, ic, 0, 0) IN
       IF w = NoMatch THEN Subst(ts, x, j + 1, from, r, ic, all)
       ELSE LET done == SubSeq(x, from, j - 1) \o
                        Fmt(r, 1, SubSeq(x, j, w[1] - 1),
                            IF w[2] = 0 THEN <<>> ELSE SubSeq(x, w[2], w[3] - 1))
            IN IF all THEN done \o Subst(ts, x, w[1], w[1], r, ic, all)
               ELSE done \o SubSeq(x, w[1], Len(x))

(* ------------------------------ evaluation ------------------------------- *)
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Safe(c) == \/ c >= 48 /\ c <= 57
           \/ c >= 65 /\ c <= 90
           \/ c >= 97 /\ c <= 122
           \/ c \in {45, 46, 95, 126}
RECURSIVE Enc(_)
Enc(x) == IF x = <<>> THEN <<>>
          ELSE (IF Safe(Head(x)) THEN <<Head(x)>>
                ELSE <<PCT, Hex(Head(x) \div 16), Hex(Head(x) % 16)>>) \o Enc(Tail(x))

MD == <<109, 100, 45>>
Field(v) == IF Len(v) >= 3 /\ SubSeq(v, 1, 3) = MD THEN SubSeq(v, 4, Len(v)) ELSE v
(* meta: sequence of [typed, type, text]; the last element of the type counts *)
RECURSIVE Lookup(_, _, _)
Lookup(meta, name, i) ==
  IF i = 0 THEN <<>>
  ELSE IF meta[i].typed /\ meta[i].type = name THEN meta[i].text
  ELSE Lookup(meta, name, i - 1)

Has(m, c) == \E i \in 1..Len(m) : m[i] = c
Value(meta, w) ==
  LET x == Lookup(meta, Field(w.v), Len(meta)) IN
  IF w.p = <<>> THEN x
  ELSE Subst(Toks(w.p, 1), x, 1, 1, w.r, Has(w.m, 105), Has(w.m, 103))

RECURSIVE Recipe(_, _, _)
Recipe(meta, d, i) ==
  IF i > Len(d) THEN <<>>
  ELSE IF d[i] \in {PCT, DOL} /\ At(d, i + 1) = LC
       THEN LET w == Ref(d, i + 2, 0, 0, <<>>, <<>>, <<>>, <<>>)
                x == IF w.v = <<>> THEN <<>> ELSE Value(meta, w)
            IN (IF d[i] = PCT THEN Enc(x) ELSE x) \o Recipe(meta, d, w.i)
       ELSE <<d[i]>> \o Recipe(meta, d, i + 1)

UrlAllowed(s, e) == e.op = "recipe" /\ e.out = Recipe(e.meta, e.recipe, 1)
UrlApply(s, e) == s

(* properties of the function itself (checked by UrlMC) *)
NoRefs(d) == \A i \in 1..Len(d) : ~(d[i] \in {PCT, DOL} /\ At(d, i + 1) = LC)
LiteralKept(meta, d) == NoRefs(d) => Recipe(meta, d, 1) = d
EncodedSafe(x) == \A i \in 1..Len(Enc(x)) : Safe(Enc(x)[i]) \/ Enc(x)[i] = PCT
=============================================================================
