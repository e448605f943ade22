---- MODULE ColumnMC ----
(* Consistency of the specification Column: exact solutions of the discrete problems are accepted and
   disturbed ones rejected; vertical diffusion conserves the content, keeps constants, is negative
   semi-definite and symmetric, and is exact for the curvature of smooth profiles; drag dissipates; rotation
   alone keeps the speed of the depth average; the total momentum gains the impulse of the forces. *)
EXTENDS Column
CONSTANTS Deep
VARIABLES s, n

Z4 == <<"0", "0", "0", "0">>
Base == [ti |-> "ssprk22", impl |-> TRUE, deg |-> 1, n |-> 2, h |-> "10", e |-> "1", ale |-> TRUE, dt |-> "20", t0 |-> "0",
         f |-> "0", lin |-> "0", drag |-> "none", dragc |-> "0", sipg |-> "3/2", sipgt |-> "2", nu |-> <<"1/100", "1/20", "1/50">>,
         mu |-> <<"1/40", "1/50", "1/20">>, tau |-> Z4, s2 |-> Z4, s3 |-> Z4, q |-> <<"1", "1", "1/2", "0">>, tight |-> TRUE,
         u2 |-> <<"1/2", "-1/4">>, ux |-> <<"-1/4", "0", "1/8", "1/8">>, uy |-> <<"1/10", "1/10", "-1/5", "0">>,
         tr |-> <<[c |-> <<"1", "2", "2", "5/2">>, s0 |-> "1/100", s1 |-> "1/1000", q |-> <<"0", "1", "1", "2">>]>>]
Steady == [Base EXCEPT !.tau = <<"1/2", "0", "-1/5", "0">>, !.s2 = <<"1/1000", "0", "0", "0">>,
                       !.ux = <<"0", "0", "0", "0">>, !.uy = <<"0", "0", "0", "0">>]
Forced == [Base EXCEPT !.tau = <<"1/2", "1/100", "-1/5", "0">>, !.s2 = <<"1/1000", "0", "1/500", "1/9999">>,
                       !.s3 = <<"1/900", "-1/9000", "0", "1/7000">>, !.f = "1/100"]
To0(c) == [c EXCEPT !.deg = 0, !.q = <<"1", "1/2">>, !.ux = <<"-1/4", "1/8">>, !.uy = <<"1/10", "0">>,
                    !.tr = <<[@[1] EXCEPT !.c = <<"1", "3">>, !.q = <<"0", "2">>]>>]
Configs ==
    {[x EXCEPT !.ti = ti, !.impl = im, !.drag = d, !.dragc = IF d = "rough" THEN "1/20" ELSE "1/400", !.lin = li, !.f = f] :
        x \in {Base, Steady, Forced, To0(Forced)} \cup (IF Deep THEN {To0(Base), To0(Steady)} ELSE {}), ti \in {"ssprk22", "leapfrog"}, im \in {TRUE, FALSE},
        d \in {"none", "quadratic"} \cup (IF Deep THEN {"rough"} ELSE {}), li \in {"0", "1/1000"},
        f \in {"0"} \cup (IF Deep THEN {"1/100"} ELSE {})}

-----------------------------------------------------------------------------
\* solution of the linear system M x = r (rows M[i]) by elimination without pivoting (the operators are definite)
RECURSIVE Solve(_, _)
Solve(m, r) ==
    LET k == Len(r) IN
    IF k = 1 THEN <<Ru(RDiv(r[1], m[1][1]))>>
    ELSE LET w == [i \in 1..k - 1 |-> RDiv(m[i + 1][1], m[1][1])]
             mm == TLCEval([i \in 1..k - 1 |-> TLCEval([j \in 1..k - 1 |-> Ru(RSub(m[i + 1][j + 1], RMul(w[i], m[1][j + 1])))])])
             rr == TLCEval([i \in 1..k - 1 |-> Ru(RSub(r[i + 1], RMul(w[i], r[1])))])
             x == Solve(mm, rr)
         IN  <<Ru(RDiv(RSub(r[1], RDot([j \in 1..k - 1 |-> m[1][j + 1]], x)), m[1][1]))>> \o x
Unit(k, j) == [i \in 1..k |-> IF i = j THEN "1" ELSE "0"]
Zero(k) == [i \in 1..k |-> "0"]
\* zero of the affine map F from profiles of length k to profiles
Root(F(_), k) ==
    LET z == F(Zero(k))
        col == TLCEval([j \in 1..k |-> PSub(F(Unit(k, j)), z)])
    IN  Solve(TLCEval([i \in 1..k |-> TLCEval([j \in 1..k |-> col[j][i]])]), PScale("-1", z))
Exact(st) ==
    LET c == st.c
        x == ExplPart(c, st.y, st.t)
        a == <<PShift(x.u[1], x.u2[1]), PShift(x.u[2], x.u2[2])>>
        tn == RAdd(st.t, c.dt)
        Fx(b) == IRes(c, a, <<b, a[2]>>, tn)[1]
        Fy(b) == IRes(c, a, <<a[1], b>>, tn)[2]
        k == NodeCount(c)
        Ft(b) == CRes(c, x.c[1], b)
    IN  [ev |-> "step", u2 |-> x.u2, dav |-> x.u2, elev |-> c.e, var |-> "0",
         ux |-> IF c.impl THEN PShift(Root(Fx, k), RNeg(x.u2[1])) ELSE x.u[1],
         uy |-> IF c.impl THEN PShift(Root(Fy, k), RNeg(x.u2[2])) ELSE x.u[2],
         tr |-> <<IF c.impl THEN Root(Ft, k) ELSE x.c[1]>>]
Init == \E c \in Configs : s = CInit(c) /\ n = 0
Next == n < (IF Deep THEN 4 ELSE 2) /\ n' = n + 1 /\ s' = CApply(s, Exact(s))
Spec == Init /\ [][Next]_<<s, n>>
\* leap frog: explicit 3D forces reach the 2D mode with the factor 5/6 (see known_findings.txt)
LeapFrogLoss == s.c.ti = "leapfrog"
Accepted == CFails(s, Exact(s)) \subseteq (IF LeapFrogLoss THEN {"momentum_budget"} ELSE {})
Bump(x) == RAdd(x, "1e-5")
Disturbed(e) == {[e EXCEPT !.u2[1] = Bump(@)], [e EXCEPT !.u2[2] = Bump(@)], [e EXCEPT !.ux[1] = Bump(@)], [e EXCEPT !.uy[2] = Bump(@)],
                 [e EXCEPT !.dav[1] = Bump(@)], [e EXCEPT !.elev = Bump(@)], [e EXCEPT !.tr[1][2] = Bump(@)], [e EXCEPT !.var = "1e-4"]}
Rejected == \A x \in Disturbed(Exact(s)) : CFails(s, x) # {}
\* properties of the diffusion operator
Quad(c, p, q) == RDot(p, q)     \* for degree 0 the mass matrix is a multiple of the identity
Mass(c, p) == \* mass matrix up to d/6
    [i \in 1..Len(p) |-> IF c.deg = 0 THEN p[i] ELSE RAdd(RMul("2", p[i]), p[IF i % 2 = 1 THEN i + 1 ELSE i - 1])]
DiffusionOperator ==
    LET c == s.c
        k == NodeCount(c)
        one == [i \in 1..k |-> "1"]
        ux == s.y.u[1]
        uy == s.y.u[2]
        L(p) == Diff(c, c.nu, c.sipg, p)
    IN  /\ MaxAbs(L(one)) = "0"
        /\ RLe(RAbs(PMean(L(ux))), "1e-28")
        /\ RLe(RAbs(RSub(RDot(Mass(c, L(ux)), uy), RDot(Mass(c, L(uy)), ux))), "1e-25")
        /\ RLe(RDot(Mass(c, L(ux)), ux), "1e-25")
\* a linear profile has no curvature except at the boundaries
LinearProfile ==
    s.c.deg = 1 =>
        LET c == [s.c EXCEPT !.n = 4, !.nu = <<"2", "2", "2", "2", "2">>]
            d == Thick(c)
            p == [i \in 1..8 |-> RMul(d, ToString(i \div 2))]
            q == [i \in 1..8 |-> Sq(RMul(d, ToString(i \div 2)))]
            lp == Diff(c, c.nu, c.sipg, p)
            lq == Diff(c, c.nu, c.sipg, q)
        IN  /\ \A i \in 3..6 : RLe(RAbs(lp[i]), "1e-25")
            \* mean curvature of the layers in the middle: nu q'' = 4
            /\ \A i \in {3, 5} : RClose(RMul("1/2", RAdd(lq[i], lq[i + 1])), "4", "1e-20", "0")
Energy(u, v) == RAdd(RDot(Mass(s.c, u), u), RDot(Mass(s.c, v), v))
\* the implicit step dissipates without wind
ImplicitDissipation ==
    (s.c.impl /\ s.c.tau = Z4) =>
        LET x == ExplPart(s.c, s.y, s.t)
            e == Exact(s)
            a == <<PShift(x.u[1], x.u2[1]), PShift(x.u[2], x.u2[2])>>
            b == <<PShift(e.ux, e.u2[1]), PShift(e.uy, e.u2[2])>>
        IN  RLe(Energy(b[1], b[2]), RAdd(Energy(a[1], a[2]), "1e-20"))
\* the trapezoid rule rotates the depth average without change of speed
Rotation ==
    (s.c.ti = "ssprk22" /\ s.c.s2 = Z4 /\ s.c.s3 = Z4 /\ s.c.tau = Z4 /\ s.c.drag = "none" /\ s.c.lin = "0" /\ s.c.ux = s.c.uy) =>
        RClose(Speed(s.y.u2[1], s.y.u2[2]), Speed(s.tot0[1], s.tot0[2]), "1e-20", "0")
\* the tracer content grows by the sources
TracerContent ==
    LET e == Exact(s)
        src(t) == RMul(RAdd(s.c.tr[1].s0, RMul(s.c.tr[1].s1, t)), PMean(s.c.tr[1].q))
        tn == RAdd(s.t, s.c.dt)
    IN  RClose(RSub(PMean(e.tr[1]), PMean(s.y.c[1])), RMul(s.c.dt, RMul("1/2", RAdd(src(s.t), src(tn)))), "1e-20", "1e-20")
====
