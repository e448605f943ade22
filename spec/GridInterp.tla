---- MODULE GridInterp ----
(***************************************************************************)
(* Interpolation of structured data onto mesh nodes (GridInterpolator,     *)
(* NetCDFLatLonInterpolator2d): piecewise linear inside the source grid,   *)
(* fill value or nearest source point outside.                             *)
(*                                                                         *)
(* cfg  dim 2 or 3; ax: sequence of ascending axes (sequences of rationals)*)
(*      nearest BOOLEAN, fill: fill value ("nan" allowed)                  *)
(*      tgt: sequence of target points                                     *)
(*      norm: nearest points are sought in coordinates scaled by the range *)
(*            of the target points                                         *)
(* event eval: data (sequence over x of sequence over y) for dim 2, affine *)
(*      coefficients coef (<<c0, cx, cy, cz>>) for dim 3; out values       *)
(* In a rectangular cell the data are interpolated linearly on one of the  *)
(* two pairs of triangles (both are Delaunay triangulations).              *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

Cl(c, n) == IF c THEN {} ELSE {n}
Lo(a) == a[1]
Hi(a) == a[Len(a)]
Inside(c, p) == \A d \in 1..c.dim : RLe(Lo(c.ax[d]), p[d]) /\ RLe(p[d], Hi(c.ax[d]))
Cell(a, x) == CHOOSE i \in 1..Len(a)-1 : RLe(a[i], x) /\ RLe(x, a[i+1])
Frac(a, i, x) == RDiv(RSub(x, a[i]), RSub(a[i+1], a[i]))

\* the two linear interpolants in the cell of p
TwoValues(c, p, data) ==
    LET i == Cell(c.ax[1], p[1])
        j == Cell(c.ax[2], p[2])
        u == Frac(c.ax[1], i, p[1])
        v == Frac(c.ax[2], j, p[2])
        d00 == data[i][j]
        d10 == data[i+1][j]
        d01 == data[i][j+1]
        d11 == data[i+1][j+1]
        comb(a, b, x, y, w) == RAdd(w, RAdd(RMul(a, RSub(x, w)), RMul(b, RSub(y, w))))
        u1 == RSub("1", u)
        v1 == RSub("1", v)
        A == IF RLe(RAdd(u, v), "1") THEN comb(u, v, d10, d01, d00) ELSE comb(u1, v1, d01, d10, d11)
        B == IF RLe(v, u) THEN comb(u1, v, d00, d11, d10) ELSE comb(u, v1, d11, d00, d01)
    IN  {A, B}

\* range of the target points in direction d
Range(c, d) == LET S == {c.tgt[k][d] : k \in 1..Len(c.tgt)}
                   mx == CHOOSE x \in S : \A y \in S : RLe(y, x)
                   mn == CHOOSE x \in S : \A y \in S : RLe(x, y)
               IN  RSub(mx, mn)
Scale(c) == [d \in 1..c.dim |-> IF c.norm THEN RDiv("1", Range(c, d)) ELSE "1"]
\* a rectangular grid: the nearest point is nearest in every direction
NearIdx(a, x) == {i \in 1..Len(a) : \A k \in 1..Len(a) : RLe(RAbs(RSub(a[i], x)), RAbs(RSub(a[k], x)))}

Affine(coef, p) == RSum(<<coef[1], RMul(coef[2], p[1]), RMul(coef[3], p[2]), RMul(coef[4], p[3])>>)
Equal(x, y) == RClose(x, y, "1e-8", "1e-8") \/ (x = "nan" /\ y = "nan")

PointFails(c, e, k) ==
    LET p == c.tgt[k]
        o == e.out[k]
    IN
    IF Inside(c, p)
    THEN IF c.dim = 2 THEN Cl(\E x \in TwoValues(c, p, e.data) : Equal(x, o), "inside_value")
         ELSE Cl(Equal(Affine(e.coef, p), o), "inside_value")
    ELSE IF ~c.nearest THEN Cl(Equal(c.fill, o), "fill_value")
    ELSE LET I == NearIdx(c.ax[1], p[1])
             J == NearIdx(c.ax[2], p[2])
         IN  IF c.dim = 2 THEN Cl(\E i \in I, j \in J : Equal(e.data[i][j], o), "nearest_value")
             ELSE Cl(\E i \in I, j \in J, m \in NearIdx(c.ax[3], p[3]) :
                       Equal(Affine(e.coef, <<c.ax[1][i], c.ax[2][j], c.ax[3][m]>>), o), "nearest_value")

GIInit(c) == [c |-> c, n |-> 0]
GIFails(s, e) ==
    CASE e.ev = "targets" -> {}
      [] e.ev = "eval" ->
           LET c == IF "tgt" \in DOMAIN s THEN [s.c EXCEPT !.tgt = s.tgt] ELSE s.c IN
           IF Len(e.out) # Len(c.tgt) THEN {"size"}
           ELSE UNION {PointFails(c, e, k) : k \in 1..Len(c.tgt)}
      [] e.ev = "repeat" -> Cl(e.same, "not_reusable")
      [] e.ev = "name" -> Cl(e.found = e.want, "variable_name")
      [] OTHER -> {"unknown_event"}
GIApply(s, e) == IF e.ev = "targets" THEN [x \in DOMAIN s \cup {"tgt"} |-> IF x = "tgt" THEN e.tgt ELSE s[x]]
                 ELSE [s EXCEPT !.n = @ + 1]
GIInvFails(s) == {}
GIFinal(s) == Cl(s.n > 0, "run_incomplete")
====
