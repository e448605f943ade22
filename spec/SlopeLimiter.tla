---- MODULE SlopeLimiter ----
(***************************************************************************)
(* Vertex based slope limiter for linear discontinuous fields (Kuzmin 2010)*)
(* on triangles ("tri"), quadrilaterals ("quad") and prisms ("prism").     *)
(*                                                                         *)
(* event mesh  cells: sequence of the vertex numbers of the nodes of every *)
(*             cell; xy: coordinates of the nodes of every cell            *)
(*   quad  nodes (0,0) (0,1) (1,0) (1,1)                                   *)
(*   prism nodes (vertex 1, bottom) (vertex 1, top) (vertex 2, bottom) ... *)
(* event limit before, after: values of the nodes of every cell            *)
(* The mean of every cell is preserved; nodal values are moved towards the *)
(* mean by the largest factor for which every node lies in the range of the*)
(* means of the cells around its vertex and of the boundary facets at it.  *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

Cl(c, n) == IF c THEN {} ELSE {n}
Nodes(c) == CASE c.kind = "tri" -> 3 [] c.kind = "quad" -> 4 [] c.kind = "prism" -> 6

\* local nodes of the facets of a cell
Facets(c) ==
    CASE c.kind = "tri" -> {{1, 2}, {2, 3}, {1, 3}}
      [] c.kind = "quad" -> {{1, 2}, {3, 4}, {1, 3}, {2, 4}}
      [] c.kind = "prism" -> {{1, 2, 3, 4}, {3, 4, 5, 6}, {1, 2, 5, 6}, {1, 3, 5}, {2, 4, 6}}

Weight(c, xy) ==    \* weights of the nodal values in the mean over the cell (not normalised)
    CASE c.kind = "tri" -> <<"1", "1", "1">>
      [] c.kind = "quad" ->
           LET D(i, j, k) == RSub(xy[i][k], xy[j][k])
               Cr(i, j, m, n) == RSub(RMul(D(i, j, 1), D(m, n, 2)), RMul(D(i, j, 2), D(m, n, 1)))
               J == <<Cr(3, 1, 2, 1), Cr(4, 2, 2, 1), Cr(3, 1, 4, 3), Cr(4, 2, 4, 3)>>
           IN  <<RDot(<<"4", "2", "2", "1">>, J), RDot(<<"2", "4", "1", "2">>, J),
                 RDot(<<"2", "1", "4", "2">>, J), RDot(<<"1", "2", "2", "4">>, J)>>
      [] c.kind = "prism" ->
           LET h == [v \in 1..3 |-> RSub(xy[2*v][3], xy[2*v - 1][3])]
               w == [v \in 1..3 |-> RAdd(h[v], RSum(h))]
           IN  <<w[1], w[1], w[2], w[2], w[3], w[3]>>
Mean(q, w) == RDiv(RDot(q, w), RSum(w))

SeqMax(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)
SeqMin(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)
FMean(q, f) == LET s == IF Cardinality(f) = 0 THEN "0" ELSE RSum([i \in 1..Len(q) |-> IF i \in f THEN q[i] ELSE "0"])
               IN  RDiv(s, Cardinality(f))

\* prepared mesh: weights, boundary facets (cell, local nodes), for every vertex the cells and boundary facets around it
Prepare(c, e) ==
    LET n == Len(e.cells)
        vs == UNION {{e.cells[k][i] : i \in 1..Nodes(c)} : k \in 1..n}
        ids(k, f) == {e.cells[k][i] : i \in f}
        bf == {<<k, f>> \in (1..n) \X Facets(c) :
                 ~\E k2 \in 1..n : k2 # k /\ \E f2 \in Facets(c) : ids(k, f) = ids(k2, f2)}
    IN  [n |-> n, cells |-> e.cells,
         w |-> TLCEval([k \in 1..n |-> Weight(c, e.xy[k])]),
         around |-> TLCEval([v \in vs |-> {k \in 1..n : \E i \in 1..Nodes(c) : e.cells[k][i] = v}]),
         bnd |-> TLCEval([v \in vs |-> {b \in bf : v \in ids(b[1], b[2])}])]

Means(c, m, q) == TLCEval([k \in 1..m.n |-> Mean(q[k], m.w[k])])
Ranges(c, m, q, mean) ==
    TLCEval([v \in DOMAIN m.around |->
       LET S == {mean[k] : k \in m.around[v]} \cup {FMean(q[b[1]], b[2]) : b \in m.bnd[v]}
       IN  <<SeqMin(S), SeqMax(S)>>])
Factor(c, m, q, mean, rng, k, i) ==
    LET d == RSub(q[k][i], mean[k])
        r == rng[m.cells[k][i]]
    IN  IF d = "0" THEN "1" ELSE RMin("1", RDiv(RSub(IF RLt("0", d) THEN r[2] ELSE r[1], mean[k]), d))

Limited(c, m, q) ==
    LET mean == Means(c, m, q)
        rng == Ranges(c, m, q, mean)
    IN  [k \in 1..m.n |->
           LET a == SeqMin({Factor(c, m, q, mean, rng, k, i) : i \in 1..Nodes(c)})
           IN  [i \in 1..Nodes(c) |-> RAdd(mean[k], RMul(a, RSub(q[k][i], mean[k])))]]

\* The factor is discontinuous where a node equals the mean and the mean is an end of the range: in floating point
\* the node may then be limited or not.  The other nodes still bound the factor.
Degenerate(c, m, q, mean, rng, k, i) ==
    /\ RClose(q[k][i], mean[k], "1e-12", "1e-12")
    /\ \E j \in {1, 2} : RClose(rng[m.cells[k][i]][j], mean[k], "1e-12", "1e-12")
LimitedOk(c, m, q, o, k, mean, rng, tol) ==
    LET N == 1..Nodes(c)
        deg == {i \in N : Degenerate(c, m, q, mean, rng, k, i)}
        a == SeqMin({"1"} \cup {Factor(c, m, q, mean, rng, k, i) : i \in N \ deg})
        big == CHOOSE i \in N : \A j \in N : RLe(RAbs(RSub(q[k][j], mean[k])), RAbs(RSub(q[k][i], mean[k])))
        d == RSub(q[k][big], mean[k])
        b == IF deg = {} \/ RClose(q[k][big], mean[k], "1e-11", "1e-11") THEN a ELSE RDiv(RSub(o[k][big], mean[k]), d)      \* the factor used
    IN  /\ deg # {} => (RLe("-1e-9", b) /\ RLe(b, RAdd(a, "1e-9")))
        /\ \A i \in N : RClose(o[k][i], RAdd(mean[k], RMul(b, RSub(q[k][i], mean[k]))), tol, tol)

SLInit(c) == [c |-> c, n |-> 0, m |-> <<>>]
SLFails(s, e) ==
    CASE e.ev = "mesh" -> {}
      [] e.ev = "limit" ->
           LET tol == "1e-10"
               mean == Means(s.c, s.m, e.before)
               rng == Ranges(s.c, s.m, e.before, mean)
               cls(k) == Cl(RClose(Mean(e.after[k], s.m.w[k]), mean[k], tol, tol), "mean_preserved")
                         \cup Cl(LimitedOk(s.c, s.m, e.before, e.after, k, mean, rng, tol), "limited_value")
           IN  UNION {cls(k) : k \in 1..s.m.n}
      [] OTHER -> {"unknown_event"}
SLApply(s, e) == IF e.ev = "mesh" THEN [s EXCEPT !.m = Prepare(s.c, e)] ELSE [s EXCEPT !.n = @ + 1]
SLInvFails(s) == {}
SLFinal(s) == Cl(s.n > 0, "run_incomplete")
====
