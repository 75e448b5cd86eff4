------------------------------- MODULE XmlOps -------------------------------
(* The values configuration is made of: text, booleans, numbers, attribute   *)
(* lists, and moving among the children of an element.                       *)
(* A node is [k, n, ns, x, a, c]: kind ("e" element, "t" text, "c" comment,  *)
(* "p" processing instruction, "d" CDATA, "0" no node), name, namespace, text *)
(* (codes), attributes [n, ns, v], children.                                  *)
EXTENDS Integers, Sequences, TLC

MPNS == "http://indexdata.com/metaproxy"
RECURSIVE Cat(_, _)
Cat(ns, i) == IF i > Len(ns) THEN <<>>
              ELSE (IF ns[i].k = "t" THEN ns[i].x ELSE <<>>) \o Cat(ns, i + 1)
GetText(n) == Cat(n.c, 1)

HasFirstText(n) == n.k = "e" /\ Len(n.c) > 0 /\ n.c[1].k = "t"
TrueText == <<116, 114, 117, 101>>
GetBool(n, d) == IF HasFirstText(n) THEN n.c[1].x = TrueText \/ n.c[1].x = <<49>> ELSE d

Space == {32, 9, 10, 11, 12, 13}
RECURSIVE Digits(_, _, _)
Digits(x, i, acc) == IF i <= Len(x) /\ x[i] >= 48 /\ x[i] <= 57
                     THEN Digits(x, i + 1, acc * 10 + x[i] - 48) ELSE acc
RECURSIVE SkipS(_, _)
SkipS(x, i) == IF i <= Len(x) /\ x[i] \in Space THEN SkipS(x, i + 1) ELSE i
Number(x) == LET i == SkipS(x, 1) IN
             IF i > Len(x) THEN 0
             ELSE IF x[i] = 45 THEN 0 - Digits(x, i + 1, 0)
             ELSE IF x[i] = 43 THEN Digits(x, i + 1, 0)
             ELSE Digits(x, i, 0)
GetInt(n, d) == IF HasFirstText(n) THEN Number(n.c[1].x) ELSE d

(* attributes by name: each listed name gets its value, empty if absent; an  *)
(* attribute that is not listed is an error                                  *)
ParseAttr(n, names) ==
  IF \E i \in 1..Len(n.a) : \A j \in 1..Len(names) : n.a[i].n # names[j]
  THEN [ok |-> FALSE, v |-> <<>>]
  ELSE [ok |-> TRUE,
        v |-> [j \in 1..Len(names) |->
                 LET I == {i \in 1..Len(n.a) : n.a[i].n = names[j]} IN
                 IF I = {} THEN <<>> ELSE n.a[CHOOSE i \in I : TRUE].v]]

KindOf(t) == CASE t = "element" -> "e" [] t = "text" -> "t" [] t = "comment" -> "c"
RECURSIVE NextOf(_, _, _)
NextOf(c, i, k) == IF i > Len(c) THEN 0 ELSE IF c[i].k = k THEN i ELSE NextOf(c, i + 1, k)

IsElement(n, ns, name) == n.k = "e" /\ n.ns # "" /\ n.ns = ns /\ n.n = name
HasChildEl(n) == \E i \in 1..Len(n.c) : n.c[i].k = "e"

XmAllowed(s, e) ==
  LET n == e.node IN
  CASE e.op = "get_text" -> e.text = GetText(n)
    [] e.op = "attr_text" -> \A i \in 1..Len(n.a) : e.vals[i] = n.a[i].v
    [] e.op = "get_bool" -> e.res = GetBool(n, e.def)
    [] e.op = "get_int"  -> e.res = GetInt(n, e.def)
    [] e.op = "parse_attr" -> e.ok = ParseAttr(n, e.names).ok /\
                              (e.ok => e.vals = ParseAttr(n, e.names).v)
    [] e.op = "get_route" -> LET p == ParseAttr(n, <<"route">>) IN
                             e.ok = p.ok /\ (e.ok => e.vals = p.v)
    [] e.op = "get_route2" -> LET p == ParseAttr(n, <<"route", "auth">>) IN
                              e.ok = p.ok /\ (e.ok => e.vals = p.v)
    [] e.op = "children" -> e.res = NextOf(n.c, 1, KindOf(e.type))
    [] e.op = "next" -> e.res = NextOf(n.c, e.at + 1, KindOf(e.type))
    [] e.op = "jump" -> e.res = NextOf(n.c, e.at, KindOf(e.type))
    [] e.op = "is_element" -> e.res = IsElement(n, e.ns, e.name)
    [] e.op = "is_element_mp" -> e.res = IsElement(n, MPNS, e.name)
    [] e.op = "check_element_mp" -> e.ok = IsElement(n, MPNS, e.name)
    [] e.op = "check_empty" -> e.ok = ~HasChildEl(n)
    [] e.op = "is_attribute" -> e.res = (n.a[e.at].n = e.name /\ (e.ns = "" \/ n.a[e.at].ns = e.ns))
    [] e.op = "check_attribute" -> e.ok = (n.a[e.at].n = e.name /\ (e.ns = "" \/ n.a[e.at].ns = e.ns))
    [] OTHER -> FALSE
XmApply(s, e) == s
=============================================================================
