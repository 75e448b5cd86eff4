------------------------------ MODULE FlexOps ------------------------------
(* Loading a FleXML configuration and the life of the filters it defines.    *)
(* An element is [n, ns, a, c, mk]: name, whether it is in metaproxy's       *)
(* namespace, attributes as <<name, value>> pairs, child elements and, for   *)
(* filter elements, a marker by which the filter object made from it is      *)
(* recognised (0: none).                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

IsEl(x, name) == x.ns /\ x.n = name

AttrIdx(x, name) == {i \in 1..Len(x.a) : x.a[i][1] = name}
AttrVal(x, name) == IF AttrIdx(x, name) = {} THEN ""
                    ELSE LET i == CHOOSE i \in AttrIdx(x, name) : TRUE IN x.a[i][2]
OnlyAttrs(x, ok) == \A i \in 1..Len(x.a) : x.a[i][1] \in (ok \cup {"base"})

Fail == [ok |-> FALSE, made |-> <<>>, ids |-> <<>>, list |-> <<>>]
Put(f, k, v) == (k :> v) @@ f

(* ---- top level filters: acc = [ok, made, ids] ---- *)
RECURSIVE Filters(_, _, _, _)
Filters(els, i, types, acc) ==
  IF i > Len(els) THEN acc
  ELSE LET x == els[i]
           id == AttrVal(x, "id")
           ty == AttrVal(x, "type")
       IN IF ~IsEl(x, "filter") \/ ~OnlyAttrs(x, {"id", "type"}) \/ ty \notin types
             \/ id \in DOMAIN acc.ids
          THEN Fail
          ELSE Filters(els, i + 1, types,
                 [acc EXCEPT !.made = Append(@, <<ty, x.mk>>), !.ids = Put(@, id, x.mk)])

(* ---- the content of a route: acc = [ok, made, ids, list] ---- *)
RECURSIVE RouteBody(_, _, _, _)
RouteBody(els, i, types, acc) ==
  IF i > Len(els) \/ ~acc.ok THEN acc
  ELSE LET x == els[i]
           ref == AttrVal(x, "refid")
           ty == AttrVal(x, "type")
       IN IF IsEl(x, "filters")
          THEN RouteBody(els, i + 1, types, RouteBody(x.c, 1, types, acc))
          ELSE IF ~IsEl(x, "filter") \/ ~OnlyAttrs(x, {"refid", "type"}) THEN Fail
          ELSE IF ref # ""
               THEN IF ref \notin DOMAIN acc.ids THEN Fail
                    ELSE RouteBody(els, i + 1, types, [acc EXCEPT !.list = Append(@, acc.ids[ref])])
          ELSE IF ty # ""
               THEN IF ty \notin types THEN Fail
                    ELSE RouteBody(els, i + 1, types,
                           [acc EXCEPT !.made = Append(@, <<ty, x.mk>>), !.list = Append(@, x.mk)])
          ELSE RouteBody(els, i + 1, types, acc)

(* ---- routes, up to the first element that is not a route ---- *)
RECURSIVE Routes(_, _, _, _, _)
Routes(els, i, types, acc, tab) ==
  IF i > Len(els) \/ ~IsEl(els[i], "route")
  THEN [ok |-> TRUE, made |-> acc.made, tab |-> tab]
  ELSE LET x == els[i]
           id == AttrVal(x, "id")
           b == RouteBody(x.c, 1, types, [acc EXCEPT !.list = <<>>])
       IN IF ~OnlyAttrs(x, {"id"}) \/ ~b.ok \/ id \in DOMAIN tab
          THEN [ok |-> FALSE, made |-> <<>>, tab |-> <<>>]
          ELSE Routes(els, i + 1, types, b, Put(tab, id, b.list))

(* ---- every route attribute one level below a filter names a route ---- *)
RECURSIVE Refs(_, _)
Refs(els, names) ==
  \A i \in 1..Len(els) :
    LET x == els[i] IN
    IF IsEl(x, "filters") THEN Refs(x.c, names)
    ELSE IsEl(x, "filter") =>
           \A j \in 1..Len(x.c) : \A k \in 1..Len(x.c[j].a) :
              x.c[j].a[k][1] = "route" => x.c[j].a[k][2] \in names

Bad == [ok |-> FALSE, made |-> <<>>, tab |-> <<>>, start |-> ""]

Load(root, types) ==
  IF ~IsEl(root, "metaproxy") THEN Bad
  ELSE
  LET c == root.c
      i1 == IF Len(c) >= 1 /\ IsEl(c[1], "dlpath") THEN 2 ELSE 1
  IN IF Len(c) < i1 \/ ~IsEl(c[i1], "start") \/ ~OnlyAttrs(c[i1], {"route"}) THEN Bad
     ELSE
     LET start == IF AttrIdx(c[i1], "route") = {} THEN "start" ELSE AttrVal(c[i1], "route")
         i2 == i1 + 1
         hasF == Len(c) >= i2 /\ IsEl(c[i2], "filters")
         F == IF hasF THEN Filters(c[i2].c, 1, types, [ok |-> TRUE, made |-> <<>>, ids |-> <<>>, list |-> <<>>])
              ELSE [ok |-> TRUE, made |-> <<>>, ids |-> <<>>, list |-> <<>>]
         i3 == IF hasF THEN i2 + 1 ELSE i2
     IN IF ~F.ok \/ Len(c) # i3 \/ ~IsEl(c[i3], "routes") THEN Bad
        ELSE IF c[i3].c = <<>> \/ ~IsEl(c[i3].c[1], "route") THEN Bad
        ELSE
        LET R == Routes(c[i3].c, 1, types, F, <<>>)
            names == DOMAIN R.tab
        IN IF ~R.ok \/ start \notin names
              \/ (hasF /\ ~Refs(c[i2].c, names))
              \/ \E i \in 1..Len(c[i3].c) : IsEl(c[i3].c[i], "route") /\ ~Refs(c[i3].c[i].c, names)
           THEN Bad
           ELSE [ok |-> TRUE, made |-> R.made, tab |-> R.tab, start |-> start]

(* ------------------------------- events ---------------------------------- *)
FxStart == [ok |-> FALSE, made |-> <<>>, tab |-> <<>>, start |-> "", test |-> FALSE]

Markers(made) == [i \in 1..Len(made) |-> made[i][2]]
(* the order of the calls within a route is that of the route; routes may    *)
(* come in any order                                                         *)
RECURSIVE BlocksOf(_, _)
BlocksOf(tab, names) ==
  IF names = {} THEN {<<>>}
  ELSE UNION {{tab[n] \o w : w \in BlocksOf(tab, names \ {n})} : n \in names}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])

FxAllowed(s, e) ==
  CASE e.op = "load" ->
         LET L == Load(e.tree, {e.types[i] : i \in 1..Len(e.types)}) IN
         /\ e.ok = L.ok
         /\ IF L.ok
            THEN /\ e.made = L.made
                 /\ \A i \in 1..Len(e.tests) : e.tests[i] = e.test
                 /\ Len(e.tests) = Len(e.made)
                 /\ e.alive = Len(L.made)
            ELSE e.alive = 0
    [] e.op = "walk" -> /\ s.ok
                        /\ e.res = IF e.route = "" THEN s.tab[s.start]
                                   ELSE IF e.route \in DOMAIN s.tab THEN s.tab[e.route]
                                   ELSE <<>>
    [] e.op \in {"start", "stop"} ->
         /\ e.seq \in BlocksOf(s.tab, DOMAIN s.tab)
         /\ \A i \in 1..Len(e.sigs) : e.sigs[i] = e.sig
         /\ Len(e.sigs) = IF e.op = "stop" THEN Len(e.seq) ELSE 0
    [] e.op = "destroy" -> SameBag(e.seq, Markers(s.made))
    [] e.op = "chain" -> e.starts = e.list /\ e.stops = e.list
                         /\ \A i \in 1..Len(e.sigs) : e.sigs[i] = e.sig
    [] OTHER -> FALSE

FxApply(s, e) ==
  CASE e.op = "load" -> LET L == Load(e.tree, {e.types[i] : i \in 1..Len(e.types)}) IN
         [ok |-> L.ok, made |-> L.made, tab |-> L.tab, start |-> L.start, test |-> e.test]
    [] e.op = "destroy" -> FxStart
    [] OTHER -> s
=============================================================================
