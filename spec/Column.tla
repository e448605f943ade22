---- MODULE Column ----
(***************************************************************************)
(* The 3D model in a horizontally uniform water column.                    *)
(*                                                                         *)
(* On a doubly periodic domain of constant depth, elevation e and N layers *)
(* of equal thickness, a horizontally uniform state stays uniform.  What   *)
(* is left of the mode-split equations (solver.py,                         *)
(* coupled_timeintegrator.py, momentum_eq.py, tracer_eq.py) is             *)
(*                                                                         *)
(*   d ub/dt = f J ub + S2(t) + G            depth average (2D mode)       *)
(*   d u'/dt = f J u' + S3(t) q(z) + d/dz(nu du'/dz) - D (u'+ub)           *)
(*   d c /dt = Sc(t) qc(z) + d/dz(mu dc/dz)                                *)
(*                                                                         *)
(* with the wind stress tau/rho0 at the surface, the drag CD |ub'| ub' at  *)
(* the bed, D the linear drag, G the coupling term that hands the          *)
(* depth average of the 3D forces over to the 2D mode.  The vertical       *)
(* discretisation is DG (degree 0 or 1) with the symmetric interior        *)
(* penalty method; friction, wind and vertical diffusion are explicit, or  *)
(* by backward Euler at the end of the step on the total velocity.         *)
(*                                                                         *)
(* Time step of CoupledTwoStageRK ("ssprk22"): SSPRK(2,2) in 3D, the       *)
(* trapezoid rule in 2D; of CoupledLeapFrogAM3 ("leapfrog"):               *)
(* predictor, DIRK(2,2) in 2D, corrector at the half step.  The mean of u' *)
(* is removed after every stage and becomes the coupling term.             *)
(*                                                                         *)
(* A profile is the sequence of its nodal values from the bed upwards      *)
(* (degree 1: the lower and the upper value of each layer).                *)
(*                                                                         *)
(* cfg: ti, impl, deg, n, h, e, ale, dt, t0, f, lin, drag ("none",         *)
(*   "quadratic", "rough"), dragc, sipg, sipgt, nu, mu (values at the      *)
(*   n+1 level interfaces), tau, s2, s3: <<x0, x1, y0, y1>> (x0 + x1 t,    *)
(*   ...), q: profile, u2: <<x, y>>, ux, uy: profiles, tr: sequence of     *)
(*   [c (profile), s0, s1, q (profile)]                                    *)
(* event step: u2, ux, uy, dav: <<x, y>>, elev, tr, var                    *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

Rho0 == "1000"
Kappa == "0.4"
Gam == "1/12"
LfA == RSub("1/2", RMul("2", Gam))
LfB == RAdd("1/2", RMul("2", Gam))
LfC == RSub("1", RMul("2", Gam))
D22 == "0.2928932188134524755991556379"
Dg == 34
Ru(x) == RRound(x, Dg)
Cl(ok, name) == IF ok THEN {} ELSE {name}
LinT(p, i, t) == RAdd(p[i], RMul(p[i + 1], t))
Sq(x) == RMul(x, x)

-----------------------------------------------------------------------------
\* profiles
PAdd(p, q) == TLCEval([i \in 1..Len(p) |-> Ru(RAdd(p[i], q[i]))])
PSub(p, q) == TLCEval([i \in 1..Len(p) |-> Ru(RSub(p[i], q[i]))])
PScale(a, p) == TLCEval([i \in 1..Len(p) |-> Ru(RMul(a, p[i]))])
PShift(p, a) == TLCEval([i \in 1..Len(p) |-> Ru(RAdd(p[i], a))])
PMean(p) == Ru(RDiv(RSum(p), ToString(Len(p))))

Thick(c) == RDiv(IF c.ale THEN RAdd(c.h, c.e) ELSE c.h, ToString(c.n))
\* lower and upper node of a layer
Lo(c, k) == IF c.deg = 0 THEN k ELSE 2*k - 1
Hi(c, k) == IF c.deg = 0 THEN k ELSE 2*k
Layer(c, i) == IF c.deg = 0 THEN i ELSE (i + 1) \div 2

\* inverse of the mass matrix of a column
MInv(c, r) ==
    LET d == Thick(c) IN
    TLCEval([i \in 1..Len(r) |->
        IF c.deg = 0 THEN Ru(RDiv(r[i], d))
        ELSE LET o == IF i % 2 = 1 THEN i + 1 ELSE i - 1
             IN  Ru(RDiv(RMul("2", RSub(RMul("2", r[i]), r[o])), d))])

\* tendency of vertical diffusion; nu: values at the interfaces
Diff(c, nu, sipg, p) ==
    LET d == Thick(c)
        cp == IF c.deg = 0 THEN "1" ELSE "4"
        sig == RDiv(RMul(sipg, cp), d)
        g(k) == IF c.deg = 0 THEN "0" ELSE RDiv(RSub(p[Hi(c, k)], p[Lo(c, k)]), d)
        \* interface above layer k: flux into the lower layer, and the symmetric term
        J(k) == RSub(p[Hi(c, k)], p[Lo(c, k + 1)])
        flux == TLCEval([k \in 1..c.n - 1 |-> Ru(RMul(nu[k + 1], RSub(RMul("1/2", RAdd(g(k), g(k + 1))), RMul(sig, J(k)))))])
        sym == TLCEval([k \in 1..c.n - 1 |-> IF c.deg = 0 THEN "0" ELSE Ru(RDiv(RMul(nu[k + 1], J(k)), RMul("2", d)))])
        vol == TLCEval([k \in 1..c.n |-> Ru(RMul(RMul("1/2", RAdd(nu[k], nu[k + 1])), g(k)))])
        At(x, k) == IF k \in DOMAIN x THEN x[k] ELSE "0"
        r == TLCEval([i \in 1..Len(p) |->
                LET k == Layer(c, i)
                    top == i = Hi(c, k)
                    bot == i = Lo(c, k)
                IN  IF c.deg = 0 THEN RSub(At(flux, k), At(flux, k - 1))
                    ELSE IF top THEN RSum(<<At(flux, k), RNeg(vol[k]), At(sym, k), At(sym, k - 1)>>)
                    ELSE RSum(<<RNeg(At(flux, k - 1)), vol[k], RNeg(At(sym, k)), RNeg(At(sym, k - 1))>>)])
    IN  MInv(c, r)

\* drag coefficient
DragC(c) ==
    CASE c.drag = "none" -> "0"
      [] c.drag = "quadratic" -> R(c.dragc)
      [] c.drag = "rough" ->
            LET d == Thick(c)
                z0 == R(c.dragc)
                b == RSum(<<RMul("-7/4", d), RMul("-3/2", z0), RMul(RAdd(d, RMul("5/2", z0)), RLn(RDiv(RAdd(d, z0), z0)))>>)
            IN  Ru(Sq(RDiv(RMul(Kappa, d), b)))
\* tendency of stress at surface and bed: ub is the bottom velocity, sp the speed in the friction law
Stress(c, len, tau, sp, ub) ==
    MInv(c, [i \in 1..len |-> RAdd(IF i = len THEN RDiv(tau, Rho0) ELSE "0",
                                   IF i = 1 THEN RNeg(RMul(RMul(DragC(c), sp), ub)) ELSE "0")])
Speed(x, y) == Ru(RSqrt(RAdd(Sq(x), Sq(y))))

-----------------------------------------------------------------------------
\* explicit tendency of u' = <<x, y>> in the depth-averaged flow dav, forcing of time t
XRate(c, u, dav, t) ==
    LET len == Len(u[1])
        tx == PAdd(u[1], [i \in 1..len |-> dav[1]])
        ty == PAdd(u[2], [i \in 1..len |-> dav[2]])
        sp == Speed(tx[1], ty[1])
        core(w, o, sgn, i) == PAdd(PScale(RMul(sgn, c.f), o), PScale(LinT(c.s3, i, t), c.q))
        fric(w, tot, i) == PAdd(PSub(Diff(c, c.nu, c.sipg, w), PScale(c.lin, tot)),
                                Stress(c, len, LinT(c.tau, i, t), sp, tot[1]))
        x == core(u[1], u[2], "1", 1)
        y == core(u[2], u[1], "-1", 3)
    IN  IF c.impl THEN <<x, y>> ELSE <<PAdd(x, fric(u[1], tx, 1)), PAdd(y, fric(u[2], ty, 3))>>
\* explicit tendency of tracer i
CRate(c, i, p, t) ==
    LET s == PScale(RAdd(c.tr[i].s0, RMul(c.tr[i].s1, t)), c.tr[i].q)
    IN  IF c.impl THEN s ELSE PAdd(s, Diff(c, c.mu, c.sipgt, p))
\* residual of the backward Euler step from a to b
IRes(c, a, b, t) ==
    LET len == Len(a[1])
        sp == Speed(a[1][1], a[2][1])
        r(i, j) == PSub(PSub(b[i], a[i]),
                        PScale(c.dt, PAdd(PSub(Diff(c, c.nu, c.sipg, b[i]), PScale(c.lin, b[i])),
                                          Stress(c, len, LinT(c.tau, j, t), sp, b[i][1]))))
    IN  <<r(1, 1), r(2, 3)>>
CRes(c, a, b) == PSub(PSub(b, a), PScale(c.dt, Diff(c, c.mu, c.sipgt, b)))

\* depth-averaged equation
G2(c, ub, split, t) ==
    <<Ru(RSum(<<RMul(c.f, ub[2]), LinT(c.s2, 1, t), split[1]>>)), Ru(RSum(<<RNeg(RMul(c.f, ub[1])), LinT(c.s2, 3, t), split[2]>>))>>
\* tendency k of an implicit stage: k = G2(base + gam k)
Impl2(c, base, gam, split, t) ==
    LET g == G2(c, base, split, t)
        e == RMul(gam, c.f)
        det == RAdd("1", Sq(e))
    IN  <<Ru(RDiv(RAdd(g[1], RMul(e, g[2])), det)), Ru(RDiv(RSub(g[2], RMul(e, g[1])), det))>>
V2(a, x, y) == <<Ru(RAdd(x[1], RMul(a, y[1]))), Ru(RAdd(x[2], RMul(a, y[2])))>>

\* removal of the depth average
Means(u) == <<PMean(u[1]), PMean(u[2])>>
Rem(u) == <<PShift(u[1], RNeg(PMean(u[1]))), PShift(u[2], RNeg(PMean(u[2])))>>
UAxpy(u, a, k) == <<PAdd(u[1], PScale(a, k[1])), PAdd(u[2], PScale(a, k[2]))>>

-----------------------------------------------------------------------------
\* explicit part of a step from state y: u2, split (handed to the next step), u (deviation, mean removed), c
Ssp(c, y, t) ==
    LET dt == c.dt
        tn == RAdd(t, dt)
        k0 == G2(c, y.u2, y.split, t)
        F0 == XRate(c, y.u, y.u2, t)
        w1 == UAxpy(y.u, dt, F0)
        s1 == V2(RDiv("1", dt), <<"0", "0">>, Means(w1))
        u1 == Rem(w1)
        F1 == XRate(c, u1, y.u2, tn)
        k1 == Impl2(c, V2(RMul("1/2", dt), y.u2, k0), RMul("1/2", dt), s1, tn)
        w2 == UAxpy(UAxpy(y.u, RMul("1/2", dt), F0), RMul("1/2", dt), F1)
        c2(i) == LET a == CRate(c, i, y.c[i], t)
                     b == CRate(c, i, PAdd(y.c[i], PScale(dt, a)), tn)
                 IN  PAdd(y.c[i], PScale(RMul("1/2", dt), PAdd(a, b)))
    IN  [u2 |-> V2(RMul("1/2", dt), V2(RMul("1/2", dt), y.u2, k0), k1),
         split |-> V2(RDiv("1", dt), <<"0", "0">>, Means(w2)), u |-> Rem(w2), c |-> TLCEval([i \in 1..Len(y.c) |-> c2(i)])]

Lf(c, y, t) ==
    LET dt == c.dt
        th == RAdd(t, RMul("1/2", dt))
        half(p0, p1) == PAdd(PScale(LfA, p0), PScale(LfB, p1))
        F0 == XRate(c, y.u, y.u2, t)
        w1 == UAxpy(<<half(y.up[1], y.u[1]), half(y.up[2], y.u[2])>>, RMul(LfC, dt), F0)
        split == V2(RDiv("1", dt), <<"0", "0">>, Means(w1))
        u1 == Rem(w1)
        gd == RMul(D22, dt)
        k1 == Impl2(c, y.u2, gd, split, RAdd(t, gd))
        k2 == Impl2(c, V2(RSub(dt, gd), y.u2, k1), gd, split, RAdd(t, dt))
        un == V2(gd, V2(RSub(dt, gd), y.u2, k1), k2)
        uh == <<Ru(RAdd(RMul(LfA, y.u2[1]), RMul(LfB, un[1]))), Ru(RAdd(RMul(LfA, y.u2[2]), RMul(LfB, un[2])))>>
        F1 == XRate(c, u1, uh, th)
        w2 == UAxpy(y.u, dt, F1)
        c2(i) == LET p == PAdd(half(y.cp[i], y.c[i]), PScale(RMul(LfC, dt), CRate(c, i, y.c[i], t)))
                 IN  PAdd(y.c[i], PScale(dt, CRate(c, i, p, th)))
    IN  [u2 |-> un, split |-> V2(RDiv("1", dt), <<"0", "0">>, Means(w2)), u |-> Rem(w2),
         c |-> TLCEval([i \in 1..Len(y.c) |-> c2(i)])]
ExplPart(c, y, t) == IF c.ti = "leapfrog" THEN Lf(c, y, t) ELSE Ssp(c, y, t)

-----------------------------------------------------------------------------
NodeCount(c) == IF c.deg = 0 THEN c.n ELSE 2*c.n
NumP(p) == TLCEval([i \in 1..Len(p) |-> R(p[i])])
CInit(c0) ==
    LET c == [c0 EXCEPT !.dt = R(@)]
        u == <<NumP(c.ux), NumP(c.uy)>>
        cc == [i \in 1..Len(c.tr) |-> NumP(c.tr[i].c)]
        u2 == <<R(c.u2[1]), R(c.u2[2])>>
    IN  [c |-> c, t |-> R(c.t0), k |-> 0,
         y |-> [u2 |-> u2, split |-> <<"0", "0">>, u |-> u, up |-> u, c |-> cc, cp |-> cc],
         tot0 |-> V2("1", u2, Means(u))]

RECURSIVE MaxTo(_, _)
MaxTo(p, i) == IF i = 0 THEN "0" ELSE RMax(MaxTo(p, i - 1), RAbs(p[i]))
MaxAbs(p) == MaxTo(p, Len(p))
Tol(c) == IF c.tight THEN "1e-9" ELSE "1e-6"
Close(a, b, scale, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, scale))
PClose(p, q, scale, tol) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Close(p[i], q[i], scale, tol)
\* the diffusion operator amplifies rounding errors of the reported values by this factor
Amp(c, nu, sipg) == RAdd("1", RMul(RMul("48", c.dt), RDiv(RMul(MaxAbs(nu), RAdd("1", sipg)), Sq(Thick(c)))))
Mag(s, e) == RSum(<<MaxAbs(s.y.u[1]), MaxAbs(s.y.u[2]), RAbs(s.y.u2[1]), RAbs(s.y.u2[2]), MaxAbs(e.ux), MaxAbs(e.uy), "1/100">>)

\* constant forces without rotation and friction: the total momentum grows by the impulse of the forces,
\* up to the part that is on its way from the 3D to the 2D mode
Const4(p) == p[2] = "0" /\ p[4] = "0"
BudgetApplies(c) == c.f = "0" /\ c.lin = "0" /\ (c.drag = "none" \/ (c.drag = "quadratic" /\ c.dragc = "0"))
                    /\ Const4(c.tau) /\ Const4(c.s2) /\ Const4(c.s3)
Force(c, i) == RSum(<<RDiv(c.tau[i], RMul(Rho0, RMul(Thick(c), ToString(c.n)))), c.s2[i], RMul(c.s3[i], PMean(c.q))>>)
Budget(s, e) ==
    LET c == s.c
        tot == <<RAdd(e.u2[1], PMean(e.ux)), RAdd(e.u2[2], PMean(e.uy))>>
        k == ToString(s.k + 1)
        err(i) == RAbs(RSub(RSub(tot[i], s.tot0[i]), RMul(RMul(k, c.dt), Force(c, 2*i - 1))))
        slack(i) == RSum(<<RMul("3/2", RMul(c.dt, RAbs(RDiv(c.tau[2*i - 1], RMul(Rho0, RMul(Thick(c), ToString(c.n))))))),
                           RMul("3/2", RMul(c.dt, RAbs(RMul(c.s3[2*i - 1], PMean(c.q))))),
                           RMul("2", RAbs(PMean(IF i = 1 THEN c.ux ELSE c.uy))), "1e-6">>)
    IN  \A i \in 1..2 : RLe(err(i), slack(i))

CFails(s, e) ==
    IF e.ev # "step" THEN {"unknown_event"}
    ELSE
    LET c == s.c
        tn == RAdd(s.t, c.dt)
        x == ExplPart(c, s.y, s.t)
        m == Mag(s, e)
        tol == Tol(c)
        ta == RMul(tol, Amp(c, c.nu, c.sipg))
        shift(p, a) == PShift(p, a)
        a == <<shift(x.u[1], x.u2[1]), shift(x.u[2], x.u2[2])>>      \* total velocity before the implicit step
        b == <<shift(e.ux, e.u2[1]), shift(e.uy, e.u2[2])>>
        z == NumP([i \in 1..Len(e.ux) |-> "0"])
        r == IRes(c, a, b, tn)
        wf(p) == Len(p) = NodeCount(c)
    IN  IF ~(wf(e.ux) /\ wf(e.uy) /\ Len(e.tr) = Len(c.tr) /\ \A i \in 1..Len(e.tr) : wf(e.tr[i])) THEN {"shape"}
    ELSE Cl(RLe(e.var, RMul(RMul(tol, "10"), RAdd(m, "1"))), "uniform")
      \cup Cl(Close(x.u2[1], e.u2[1], m, tol) /\ Close(x.u2[2], e.u2[2], m, tol), "depth_average")
      \cup Cl(Close(e.dav[1], e.u2[1], m, tol) /\ Close(e.dav[2], e.u2[2], m, tol), "coupled_average")
      \cup Cl(Close(c.e, e.elev, "1", tol), "elevation")
      \cup (IF c.impl
            THEN Cl(PClose(r[1], z, m, ta) /\ PClose(r[2], z, m, ta), "implicit_momentum")
            ELSE Cl(PClose(x.u[1], e.ux, m, ta) /\ PClose(x.u[2], e.uy, m, ta), "momentum")
                 \cup Cl(Close(PMean(e.ux), "0", m, tol) /\ Close(PMean(e.uy), "0", m, tol), "deviation_mean"))
      \cup UNION {LET sc == RSum(<<MaxAbs(s.y.c[i]), MaxAbs(e.tr[i]), "1">>)
                      tt == RMul(tol, Amp(c, c.mu, c.sipgt))
                  IN  (IF c.impl THEN Cl(PClose(CRes(c, x.c[i], e.tr[i]), z, sc, tt), "implicit_tracer")
                       ELSE Cl(PClose(x.c[i], e.tr[i], sc, tt), "tracer"))
                      \cup Cl(Close(PMean(e.tr[i]), PMean(x.c[i]), sc, RMul("10", tol)), "tracer_content")
                  : i \in 1..Len(c.tr)}
      \cup (IF BudgetApplies(c) THEN Cl(Budget(s, e), "momentum_budget") ELSE {})
CApply(s, e) ==
    LET x == ExplPart(s.c, s.y, s.t)
    IN  [s EXCEPT !.t = RAdd(@, s.c.dt), !.k = @ + 1,
                  !.y = [u2 |-> <<R(e.u2[1]), R(e.u2[2])>>, split |-> x.split, u |-> <<NumP(e.ux), NumP(e.uy)>>, up |-> s.y.u,
                         c |-> TLCEval([i \in 1..Len(e.tr) |-> NumP(e.tr[i])]), cp |-> s.y.c]]
CInvFails(s) == {}
CFinal(s) == {}
====
