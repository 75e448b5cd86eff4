------------------------------ MODULE FrontMC ------------------------------
(* Clients of two peers at one port, sending, leaving and idling at any time, *)
(* a back end answering, not answering and closing, two threads, the clock    *)
(* and the signals: limits are kept; a connection gets no more than what is   *)
(* due to it, and nothing once ended; the filters learn of the end of every   *)
(* session, once, and before it is forgotten; nothing is left at the end; and *)
(* there is always a way to go on.                                            *)
EXTENDS FrontOps
CONSTANTS Conns, MaxReq, MaxT, MaxRules
VARIABLES st, clk, k, g    \* k: requests and packages so far; g: by connection what happened on it
A == "@:1"
Who == "x" :> "P" @@ "y" :> "Q"
Rule(m, v) == <<[m |-> m, v |-> v]>>
P0(tot, mx, ht, tm, th) == [ports |-> A :> "main", total |-> tot, max |-> mx, http |-> ht, tmo |-> tm, stat |-> "/s",
                            threads |-> 1, maxthreads |-> th, peer |-> Who, ok |-> TRUE]
Init == /\ clk = 0 /\ k = 0 /\ g = <<>>
        /\ \E tot \in {<<>>, Rule(<<"P">>, 1)}, mx \in {<<>>, Rule(<<"P", "Q">>, 1)}, ht \in {<<>>, Rule(<<"P">>, 1)}, tm \in {<<>>, Rule(<<"P">>, 1)}, th \in {1, 2} :
             /\ Cardinality({x \in 1..4 : <<tot, mx, ht, tm>>[x] # <<>>}) <= MaxRules
             /\ st = [FStart EXCEPT !.heard = {A}, !.p = P0(tot, mx, ht, tm, th)]
Http(n, path) == [t |-> "http", method |-> "GET", path |-> path, ver |-> "1.1", h |-> <<>>, body |-> "", ref |-> n]
Zreq(n) == [t |-> "init", ref |-> n]
Reqs(n) == {Http(n, "/r"), Http(n, "/s"), Zreq(n)}
None0 == [t |-> "none"]
Answer(q) == IF q.t = "http" THEN [t |-> "httpr", code |-> 200, ref |-> q.ref] ELSE [t |-> "initr", ref |-> q.ref]
Failure(q) == IF q.t = "http" THEN [t |-> "httpr", code |-> 500] ELSE [t |-> "close", ref |-> q.ref]
Live == DOMAIN st.c
Ev == UNION {
  {[op |-> "acc", c |-> n, s |-> n, a |-> A, peer |-> IF n = 3 THEN "y" ELSE "x", ms |-> clk, ok |-> o] : n \in Conns \ DOMAIN g, o \in IF st.sig = "" THEN BOOLEAN ELSE {}},
  {[op |-> "deliver", c |-> n, k |-> "recv", r |-> r, ms |-> clk] : n \in {x \in Live : ~st.c[x].disc /\ ~st.c[x].over}, r \in IF k < MaxReq THEN Reqs(k) ELSE {}},
  {[op |-> "deliver", c |-> n, k |-> kk, ms |-> clk] : n \in {x \in Live : ~st.c[x].disc /\ ~st.c[x].over}, kk \in {"fail", "timeout"}},
  UNION {{[op |-> "breq", s |-> n, n |-> ToString(n) \o "/" \o (IF r.t = "none" THEN "end" ELSE ToString(r.ref)), bk |-> "main", addr |-> st.c[n].peer, mine |-> A, fwd |-> st.c[n].peer, r |-> r,
           closed |-> st.c[n].over \/ st.c[n].shut] : r \in st.c[n].q \cup {None0}} : n \in Live},
  UNION {{[op |-> "bresp", n |-> x, r |-> r, closed |-> cl] : x \in DOMAIN st.c[n].run, cl \in BOOLEAN,
           r \in {None0} \cup {Answer(st.c[n].run[y]) : y \in {z \in DOMAIN st.c[n].run : st.c[n].run[z].t # "none"}}} : n \in Live},
  UNION {{[op |-> "sent", c |-> n, r |-> r, stat |-> FALSE, ms |-> clk] : r \in {IF x.k = "is" THEN x.r ELSE Failure(x.r) : x \in st.c[n].ans}} : n \in Live},
  {[op |-> "sent", c |-> n, r |-> [t |-> "httpr", code |-> x], stat |-> x = 200, freq |-> st.done, total |-> st.p.threads, busy |-> 0, ms |-> clk] : n \in Live, x \in {200, 500}},
  {[op |-> o, c |-> n] : o \in {"disc", "gone"}, n \in Live},
  {[op |-> "signal", k |-> x] : x \in IF st.sig = "" THEN {"TERM", "USR1"} ELSE {}},
  {[op |-> "unlisten", a |-> A], [op |-> "returned"]}}
G0 == [recv |-> 0, sent |-> 0, own |-> 0, ends |-> 0, disc |-> FALSE, late |-> FALSE, after |-> FALSE]
Log(e) ==
  CASE e.op = "acc" -> IF e.ok THEN Put(g, e.c, G0) ELSE g
    [] e.op = "deliver" -> IF e.k # "recv" THEN g ELSE [g EXCEPT ![e.c].recv = @ + 1]
    [] e.op = "sent" -> [g EXCEPT ![e.c].sent = @ + 1, ![e.c].late = @ \/ g[e.c].disc]
    [] e.op = "disc" -> [g EXCEPT ![e.c].disc = TRUE]
    [] e.op = "breq" -> [g EXCEPT ![e.s].ends = IF e.r.t = "none" THEN @ + 1 ELSE @]
    [] OTHER -> g
Next == ~st.ret /\
  (\/ /\ clk < MaxT /\ st.p.tmo # <<>> /\ clk' = clk + 1000 /\ UNCHANGED <<st, k, g>>
   \/ \E e \in Ev : /\ IF FAllowed(st, e) THEN st' = FApply(st, e) ELSE FALSE
                    /\ g' = Log(e)
                    /\ k' = IF e.op = "deliver" /\ e.k = "recv" THEN k + 1 ELSE k
                    /\ clk' = clk)
Spec == Init /\ [][Next]_<<st, clk, k, g>>
(* limits and threads *)
Limits == st.p.total # <<>> => Cardinality({n \in Live : st.c[n].peer = "P"}) <= 1
Rate == st.p.max # <<>> => \A x \in DOMAIN st.conn : Len(st.conn[x]) <= 1          \* all within a minute here
WebRate == st.p.http # <<>> => \A x \in DOMAIN st.http : (x[2] = "P" => Len(st.http[x]) <= 1)
Threads == Busy(st) <= st.p.maxthreads
(* no more answers than requests, none on an ended connection *)
OneEach == \A n \in DOMAIN g : g[n].sent <= g[n].recv /\ ~g[n].late
(* the end is told once, and nothing forgotten before it is *)
Ends == \A n \in DOMAIN g : g[n].ends <= 1 /\ ((n \notin Live /\ st.sig # "TERM") => g[n].ends = 1)
AtEnd == st.ret => (st.heard = {} /\ (st.sig = "TERM" \/ \A n \in Live : st.c[n].disc))
(* whatever has happened, an open connection can be dealt with, or waits for the client *)
Deals(n, e) == e.op \in {"breq", "bresp"} \/ (e.op \in {"sent", "disc", "gone"} /\ e.c = n)
Waits(n) == LET c == st.c[n] IN (~c.over /\ ~c.shut /\ Quiet(c))
GoesOn == \A n \in Live : (Waits(n) \/ (\E e \in Ev : Deals(n, e) /\ FAllowed(st, e)))
=============================================================================
