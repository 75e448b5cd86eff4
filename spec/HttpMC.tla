------------------------------ MODULE HttpMC ------------------------------
(* Every path over a small alphabet, under every small area: what is read is  *)
(* the document root or below it, and never by a name with "..".              *)
EXTENDS HttpOps
CONSTANT N
VARIABLE path, a
Alpha == {47, 101, 46, 37, 50, 70, 63}         \* / e . % 2 F ?
Roots == {<<47, 114>>, <<47, 114, 47>>, <<47, 114, 47, 46>>}   \* /r /r/ /r/.
Prefixes == {<<>>, <<47>>, <<47, 101>>, <<47, 101, 47>>, <<101>>}
Init == path = <<>> /\ \E r \in Roots, f \in Prefixes : a = [prefix |-> f, root |-> r, raw |-> FALSE, pass |-> FALSE]
Next == /\ Len(path) < N
        /\ \E c \in Alpha : path' = Append(path, c)
        /\ a' = a
Spec == Init /\ [][Next]_<<path, a>>
Served == LET q == Path(path) IN ~HasDots(q) /\ IsPrefix(a.prefix, q)
Inside == Served => LET n == Norm(File(a, Path(path))) IN
            IsPrefix(Norm(a.root), n) /\ \A i \in 1..Len(n) : n[i] # <<46, 46>>
=============================================================================
