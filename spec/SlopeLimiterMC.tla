---- MODULE SlopeLimiterMC ----
(* The limiting rule: keeps means, respects the bounds, maximal, keeps constants and unlimited fields. *)
EXTENDS SlopeLimiter
CONSTANTS Vals
VARIABLES q, kind

\* two triangles; two prisms in a column with sloping layers; a skew quadrilateral
C == [kind |-> kind]
E == CASE kind = "tri" -> [cells |-> <<<<1, 2, 3>>, <<2, 3, 4>>>>, xy |-> <<<<>>, <<>>>>]
       [] kind = "quad" -> [cells |-> <<<<1, 2, 3, 4>>>>,
                            xy |-> <<<<<<"0", "0">>, <<"0", "1">>, <<"2", "0">>, <<"1", "3/2">>>>>>]
       [] kind = "prism" -> [cells |-> <<<<1, 2, 3, 4, 5, 6>>>>,
                             xy |-> <<<<<<"0", "0", "0">>, <<"0", "0", "1">>, <<"1", "0", "0">>, <<"1", "0", "2">>,
                                       <<"0", "1", "1/2">>, <<"0", "1", "1">>>>>>]
M == Prepare(C, E)
Init == /\ kind \in {"tri", "quad", "prism"}
        /\ q \in IF kind = "tri" THEN [1..2 -> [1..3 -> Vals]]
                 ELSE [1..1 -> [1..Nodes(C) -> Vals]]
Next == UNCHANGED <<q, kind>>
Spec == Init /\ [][Next]_<<q, kind>>
L == Limited(C, M, q)
MeanOf(f) == [k \in 1..M.n |-> Mean(f[k], M.w[k])]
MeanKept == MeanOf(L) = MeanOf(q)
\* no node leaves the range of the original nodal values; a node of the limited field is between mean and original
Between == \A k \in 1..M.n, i \in 1..Nodes(C) :
    LET m == Mean(q[k], M.w[k]) IN
    (RLe(m, L[k][i]) /\ RLe(L[k][i], R(q[k][i]))) \/ (RLe(R(q[k][i]), L[k][i]) /\ RLe(L[k][i], m))
Constant == (\A k \in 1..M.n, i \in 1..Nodes(C) : q[k][i] = q[1][1]) => \A k \in 1..M.n, i \in 1..Nodes(C) : L[k][i] = R(q[1][1])
\* a wrong result is rejected
Wrong == LET bad == [L EXCEPT ![1] = [@ EXCEPT ![1] = RAdd(@, "1/100"), ![2] = RSub(@, "1/100")]]
             s == [SLInit(C) EXCEPT !.m = M]
         IN  /\ SLFails(s, [ev |-> "limit", before |-> q, after |-> bad]) # {}
             /\ SLFails(s, [ev |-> "limit", before |-> q, after |-> L]) = {}
====
