------------------------------- MODULE MultiMC ------------------------------
(* What the merging of result sets guarantees, for every number of back ends, *)
(* hit counts and present range in a bound; and of scan lists.                *)
EXTENDS MultiOps
CONSTANTS MaxB, MaxHits
VARIABLES cs, merge, start, num, ents
Hits == UNION {[1..n -> 0..MaxHits] : n \in 0..MaxB}
Terms == {"a", "b", "c"}
P == [merge |-> merge, rank |-> [a |-> 1, b |-> 2, c |-> 3]]
Ent == {[k |-> "term", term |-> t, n |-> 1] : t \in Terms}
VARIABLE M                     \* the merged order
Init == /\ cs \in Hits /\ merge \in {"rr", "so"}
        /\ M = Merged(P, cs)
        /\ start = 0 /\ num = 0 /\ ents = <<>>
Next == /\ start = 0
        /\ start' \in 1..(Sum(cs) + 1) /\ num' \in 0..(Sum(cs) + 1)
        /\ ents' \in {<<>>} \cup (IF num' = 2 /\ merge = "rr" /\ cs = <<1, 1>>
                                 THEN {<<x, y>> : x, y \in UNION {[1..n -> Ent] : n \in 0..2}} ELSE {})
        /\ UNCHANGED <<cs, merge, M>>
Spec == Init /\ [][Next]_<<cs, merge, start, num, ents, M>>
(* every record of every back end exactly once, each back end's in order *)
Complete == start = 0 => Len(M) = Sum(cs) /\ Rng(M) = UNION {{<<i, k>> : k \in 1..cs[i]} : i \in 1..Len(cs)}
Ordered == start = 0 => \A x, y \in 1..Len(M) : x < y /\ M[x][1] = M[y][1] => M[x][2] < M[y][2]
(* presents of adjacent ranges give adjacent records, whatever the ranges *)
Slices == start = 0 \/ Jobs(P, cs, 1, start - 1) \o Jobs(P, cs, start, num) = Jobs(P, cs, 1, start + num - 1)
(* what is asked of a back end is one range *)
Contig == start = 0 \/ \A i \in 1..Len(cs) : LET Q == Part(Jobs(P, cs, start, num), i) IN
            Q # {} => Q = MinOf(Q)..MaxOf(Q)
(* round robin: nobody is ahead by more than one while both have records *)
Fair == merge = "rr" /\ start = 0 => \A i, j \in 1..Len(cs) : \A n \in 0..Len(M) :
          LET C(b) == Cardinality({x \in 1..n : M[x][1] = b}) IN
          C(i) < cs[i] /\ C(j) < cs[j] => C(i) - C(j) \in {-1, 0, 1}
(* merged scan: at most as many terms as asked for, position within *)
ScanOk == ents # <<>> =>
  LET S == ScanEntries(P, [i \in 1..Len(ents) |-> [entries |-> ents[i], pos |-> i]], num, start) IN
  Len(S.e) <= num /\ S.before <= Len(S.e)
  /\ \A x, y \in 1..Len(S.e) : x < y /\ ((x <= S.before) = (y <= S.before)) => P.rank[S.e[x].term] < P.rank[S.e[y].term]
=============================================================================
