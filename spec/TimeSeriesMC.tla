---- MODULE TimeSeriesMC ----
(***************************************************************************)
(* The search as it is implemented (candidate files around the start time, *)
(* bisection within a file) finds the same stamp as the specification, and *)
(* the cached interpolation does not depend on the history of queries, for *)
(* all collections of up to MaxFiles files over a small time line.         *)
(***************************************************************************)
EXTENDS TimeSeries, TLC
CONSTANTS Line, MaxFiles, Queries
VARIABLES c, cache, last
\* a cut of the ordered stamps into consecutive files
Str(n) == R(n)
SortSet(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => q[i] < q[j]
Split(st, cuts) ==        \* cuts: increasing sequence of end positions
    [k \in 1..Len(cuts) |-> [base |-> "0", unit |-> "1",
        stamps |-> [i \in 1..(cuts[k] - (IF k = 1 THEN 0 ELSE cuts[k-1])) |->
                      Str(st[(IF k = 1 THEN 0 ELSE cuts[k-1]) + i])],
        data |-> [i \in 1..(cuts[k] - (IF k = 1 THEN 0 ELSE cuts[k-1])) |->
                      <<Str(LET z == st[(IF k = 1 THEN 0 ELSE cuts[k-1]) + i] IN z*z)>>]]]
Collections ==
    UNION {LET st == SortSet(S) n == Cardinality(S) IN
           {Split(st, SortSet(D \cup {n})) : D \in {D \in SUBSET (1..n-1) : Cardinality(D) < MaxFiles}}
           : S \in {S \in SUBSET Line : Cardinality(S) >= 1}}
Init == /\ \E fs \in Collections : c = [init |-> "0", files |-> fs, scalars |-> <<>>, daily |-> FALSE]
        /\ cache = {}
        /\ last = [q |-> "none", v |-> "none"]

\* number of elements of the increasing sequence q that are < x
Bisect(q, x) == Cardinality({i \in 1..Len(q) : RLt(q[i], x)})
Starts(fs) == [k \in 1..Len(fs) |-> fs[k].stamps[1]]
FindInFile(f, t, prev) ==
    LET i == Bisect(f.stamps, RAdd(t, TOL)) + (IF prev THEN 0 ELSE 1) IN
    IF i < 1 \/ i > Len(f.stamps) THEN 0 ELSE i
ImplFind(t, prev) ==
    LET ix == Bisect(Starts(c.files), RAdd(t, TOL))
        cand == IF ix > 0 THEN <<ix, ix + 1>> ELSE <<1, 2>>
        ok(k) == k <= Len(c.files) /\ FindInFile(c.files[k], t, prev) # 0
    IN  IF ok(cand[1]) THEN <<cand[1], FindInFile(c.files[cand[1]], t, prev)>>
        ELSE IF ok(cand[2]) THEN <<cand[2], FindInFile(c.files[cand[2]], t, prev)>>
        ELSE <<0, 0>>
S0 == TSInit(c)
SpecFind(t, prev) == LET S == IF prev THEN Prev(S0.all, t) ELSE Nxt(S0.all, t)
                     IN  IF S = {} THEN <<0, 0>> ELSE <<The(S).f, The(S).i>>
FindAgrees == \A t \in Queries, prev \in BOOLEAN : ImplFind(t, prev) = SpecFind(t, prev)
\* interpolation with a cache that keeps the two data sets used last
Query(t) ==
    LET p == ImplFind(t, TRUE) q == ImplFind(t, FALSE) IN
    /\ p # <<0, 0>> /\ q # <<0, 0>>
    /\ LET rd(k) == IF \E x \in cache : x.k = k THEN (CHOOSE x \in cache : x.k = k).v
                    ELSE c.files[k[1]].data[k[2]]
           st(k) == c.files[k[1]].stamps[k[2]]
           al == RDiv(RSub(t, st(p)), RSub(st(q), st(p)))
       IN  /\ cache' = {[k |-> p, v |-> rd(p)], [k |-> q, v |-> rd(q)]}
           /\ last' = [q |-> t, v |-> RAdd(RMul(RSub("1", al), rd(p)[1]), RMul(al, rd(q)[1]))]
    /\ UNCHANGED c
Next == \E t \in Queries : Query(t)
Spec == Init /\ [][Next]_<<c, cache, last>>
InterpAgrees == last.q # "none" =>
    TSFails(S0, [ev |-> "interp", t |-> last.q, res |-> "ok", v |-> <<last.v>>]) = {}
CacheSound == Cardinality(cache) <= 2 /\ \A x \in cache : x.v = c.files[x.k[1]].data[x.k[2]]
WrongRejected == last.q # "none" =>
    TSFails(S0, [ev |-> "interp", t |-> last.q, res |-> "ok", v |-> <<RAdd(last.v, "1/100")>>]) # {}
====
