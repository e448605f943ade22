---- MODULE Sediment ----
(***************************************************************************)
(* Sediment transport and bed evolution of the 2D model                    *)
(* (sediment_model.py, sediment_eq_2d.py, exner_eq.py).                    *)
(*                                                                         *)
(* 1. Closure relations for given depth h, velocity (u, v), bed slope:     *)
(*    dimensionless grain size, critical shear, settling velocity, bed     *)
(*    stress, skin friction, erosion and deposition (van Rijn), velocity   *)
(*    correction, bedload (Meyer-Peter-Mueller) with slope and secondary   *)
(*    current corrections.                                                 *)
(* 2. Time steps in horizontally uniform flow:                             *)
(*       H dT/dt = E - C T      (or d(HT)/dt = E - C T)                    *)
(*       db/dt = m/(1-p) (E - C T)       b: bathymetry, positive downwards *)
(*    with E, C of the flow after the flow step.                           *)
(* 3. Bedload over a planar bed: db/dt = m/(1-p) div q with q.n = 0 on     *)
(*    closed boundaries (no open flow condition, or zero flow prescribed). *)
(* 4. Closed basins: suspended plus bed mass is constant; sliding moves    *)
(*    material down the slope and only where the slope is too steep.       *)
(*                                                                         *)
(* cfg: mode ("model", "factor", "run", "bed", "budget", "slide"), p (:    *)
(*      size, zref, rhos, visc, beta, surb, asec, por, morfac),            *)
(*      flags angle, mag, secc, adv, susp, bed, cons, tronly,              *)
(*      sscheme, escheme, theta, dt, start [u, v, h, s]                    *)
(*   model: states: sequence of [u, v, h, bx, by]                          *)
(*   factor: factors: sequence of [h, aref, ksp, ws, us]                   *)
(*   bed: sides: <<kind, ...>> of x = 0, x = lx, y = 0, y = ly             *)
(* events: model(values), refused, init(s, b, eta, u, v), step(...),       *)
(*      moments(m0, mx, my), budget(susp, bed, exch, db, hmin),            *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

Grav == "9.81"
Rho0 == "1000"
Kappa == "0.4"
Pi == "3.14159265358979323846"
Cl(c, n) == IF c THEN {} ELSE {n}
Sq(x) == RMul(x, x)
Ru(x) == RRound(x, 40)
Zero(x) == R(x) = "0"

-----------------------------------------------------------------------------
\* grain properties
Rel(p) == RSub(RDiv(p.rhos, Rho0), "1")
DStar(p) == Ru(RMul(p.size, RPow(RDiv(RMul(Grav, Rel(p)), Sq(p.visc)), "1/3")))
Shields(p) ==
    LET d == DStar(p) IN
    Ru(CASE RLt(d, "4") -> RDiv("0.24", d)
         [] RLe("4", d) /\ RLt(d, "10") -> RMul("0.14", RPow(d, "-0.64"))
         [] RLe("10", d) /\ RLt(d, "20") -> RMul("0.04", RPow(d, "-0.1"))
         [] RLe("20", d) /\ RLt(d, "150") -> RMul("0.013", RPow(d, "0.29"))
         [] OTHER -> "0.055")
\* submerged weight per area of a grain layer
Weight(p) == RMul(RMul(RSub(p.rhos, Rho0), Grav), p.size)
TauCr(p) == RMul(Weight(p), Shields(p))
Settling(p) ==
    Ru(CASE RLe(p.size, "1e-4") -> RDiv(RMul(RMul(Grav, Sq(p.size)), Rel(p)), RMul("18", p.visc))
         [] ~RLe(p.size, "1e-4") /\ RLe(p.size, "1e-3") ->
               RMul(RDiv(RMul("10", p.visc), p.size),
                    RSub(RSqrt(RAdd("1", RMul("0.01", RDiv(RMul(RMul(Rel(p), Grav), RMul(p.size, Sq(p.size))), Sq(p.visc))))), "1"))
         [] OTHER -> RMul("1.1", RSqrt(RMul(RMul(Grav, p.size), Rel(p)))))
Ksp(p) == RMul("3", p.size)
Aref(p) == RDiv(p.zref, "2")

\* bed friction and stress
Qfc(p, h) == LET aux == RMax(RDiv(RMul("11.036", RMax(h, "0.001")), p.zref), "1.001")
             IN  Ru(RDiv("2", Sq(RDiv(RLn(aux), Kappa))))
Skin(p, h) == IF RLt(Ksp(p), h) THEN Ru(RDiv("2", Sq(RDiv(RLn(RDiv(RMul("11.036", h), Ksp(p))), Kappa)))) ELSE "0"
Mu(p, h) == RDiv(Skin(p, h), Qfc(p, h))
Speed2(x) == RAdd(Sq(x.u), Sq(x.v))
Stress(p, x) == Ru(RMul(RMul("500", Qfc(p, x.h)), Speed2(x)))
UStar(p, x) == Ru(RSqrt(RDiv(Stress(p, x), Rho0)))

\* suspended sediment
Rouse(p, x) == Ru(RSub(RDiv(Settling(p), RMul(Kappa, UStar(p, x))), "1"))
IRouse(p, x) ==
    LET B == IF RLt(x.h, Aref(p)) THEN "1" ELSE Ru(RDiv(Aref(p), x.h))
        r == IF Zero(UStar(p, x)) THEN "3" ELSE RMin(Rouse(p, x), "3")
        y == Ru(IF RLt("1e-4", RAbs(r)) THEN RDiv(RMul(B, RSub("1", RPow(B, r))), r) ELSE RNeg(RMul(B, RLn(B))))
    IN  Ru(RMax(IF RLt("1e-12", y) THEN RDiv("1", y) ELSE "1e12", "1"))
Stage(p, x) == LET t == RMul(Stress(p, x), Mu(p, x.h)) IN RDiv(RSub(t, TauCr(p)), TauCr(p))
ErosionC(p, x) ==
    LET t == RMax(Stage(p, x), "0") IN
    IF Zero(t) THEN "0"
    ELSE Ru(RDiv(RMul(RMul("0.015", RDiv(p.size, Aref(p))), RPow(t, "1.5")), RPow(DStar(p), "0.3")))
Deposition(p, x) == RMul(Settling(p), IRouse(p, x))
Erosion(p, x) == RMul(Settling(p), ErosionC(p, x))
Equilibrium(p, x) == Ru(RDiv(ErosionC(p, x), IRouse(p, x)))

\* ratio of the sediment flux to the product of the means, for logarithmic velocity and Rouse concentration profiles
VelFac(h, aref, ksp, ws, us) ==
    LET lim == RDiv("1", "1.1")
        Rl(k) == IF RLt(RMul("1.1", k), h) THEN RDiv(k, h) ELSE lim
        A == Ru(RMax(Rl(aref), Rl(ksp)))
        la == Ru(RLn(A))
        r == Ru(IF Zero(us) THEN RSub("1", RDiv("1", Kappa))
                ELSE RSub("1", RDiv(RMin(RDiv(ws, us), "1"), Kappa)))
        small == RLe(RAbs(r), "1e-8")
        Ar == IF small THEN "1" ELSE Ru(RPow(A, r))
        i1 == Ru(IF small THEN RNeg(la) ELSE RDiv(RSub("1", Ar), r))
        i2 == Ru(IF small THEN RMul("-1/2", Sq(la)) ELSE RNeg(RDiv(RAdd(i1, RMul(la, Ar)), r)))
        l30 == RSub(la, RLn("30"))
        al == Ru(RNeg(RDiv(RSub(i2, RMul(l30, i1)), RMul(i1, RAdd(l30, "1")))))
    IN  RMax(RMin(al, "1"), "0")
VelFactor(p, x) == VelFac(x.h, Aref(p), Ksp(p), Settling(p), UStar(p, x))

\* bedload transport; bx, by: gradient of the bathymetry, ex, ey: of the surface
Bedload(c, x) ==
    LET p == c.p
        sp == RSqrt(Speed2(x))
        ca == Ru(RDiv(x.u, sp))
        sa == Ru(RDiv(x.v, sp))
        tau == Stress(p, x)
        coef == IF c.mag THEN RAdd("1", RMul(p.beta, RAdd(RMul(x.bx, ca), RMul(x.by, sa)))) ELSE "1"
        tt == Ru(RSqrt(RDiv(RMul(Weight(p), Sq(p.surb)), RMax(tau, "1e-10"))))
        a0 == RAdd(ca, RMul(tt, x.bx))
        b0 == RAdd(sa, RMul(tt, x.by))
        nn == RMax(Ru(RSqrt(RAdd(Sq(a0), Sq(b0)))), "1e-10")
        ca1 == IF c.angle THEN Ru(RDiv(a0, nn)) ELSE ca
        sa1 == IF c.angle THEN Ru(RDiv(b0, nn)) ELSE sa
        \* secondary currents
        ex == RNeg(x.bx)
        ey == RNeg(x.by)
        vs == RSub(RMul(x.u, ey), RMul(x.v, ex))
        td == Ru(RDiv(RMul(RMul("7", RMul(Grav, Rho0)), RMul(x.h, Qfc(p, x.h))), RMul(RMul("2", p.asec), Speed2(x))))
        t1 == RAdd(RMul(RMul(tau, coef), ca1), RMul(RMul(x.v, td), vs))
        t2 == RSub(RMul(RMul(tau, coef), sa1), RMul(RMul(x.u, td), vs))
        t4 == Ru(RSqrt(RAdd(Sq(t1), Sq(t2))))
        th == Ru(RDiv(RMul(Mu(p, x.h), tau), Weight(p)))
        phi == IF RLe(th, Shields(p)) THEN "0" ELSE Ru(RMul("8", RPow(RSub(th, Shields(p)), "1.5")))
        q == RMul(phi, RSqrt(RMul(RMul(Grav, Rel(p)), RMul(p.size, Sq(p.size)))))
        mag == IF c.secc THEN Ru(RDiv(t4, tau)) ELSE coef
    IN  IF Zero(phi) THEN <<"0", "0">>
        ELSE IF c.secc THEN <<Ru(RMul(RMul(mag, q), RDiv(t1, t4))), Ru(RMul(RMul(mag, q), RDiv(t2, t4)))>>
        ELSE <<Ru(RMul(RMul(mag, q), ca1)), Ru(RMul(RMul(mag, q), sa1))>>

-----------------------------------------------------------------------------
Near(a, b, scale) == RLe(RAbs(RSub(a, b)), RAdd(RMul("5e-6", RAbs(b)), RMul("5e-6", scale)))
Fac(p) == RDiv(p.morfac, RSub("1", p.por))

\* interval arithmetic for the depth that enters the deposition of depth-integrated sediment
Between(x, a, b, tol) == RLe(RSub(RMin(a, b), tol), x) /\ RLe(x, RAdd(RMax(a, b), tol))

\* theta of the schemes for a source that only depends on time levels
ThetaOf(c, scheme) == CASE scheme = "ForwardEuler" -> "0" [] scheme = "CrankNicolson" -> R(c.theta) [] OTHER -> "1"
g22 == "0.2928932188134524755991556379"
\* growth of S' = r + l S over dt:  S1 - S0 = dt (r + l S0) Phi(dt l)
Phi(c, scheme, z) ==
    CASE scheme = "SSPRK33" -> RSum(<<"1", RDiv(z, "2"), RDiv(Sq(z), "6")>>)
      [] scheme = "DIRK22" -> RDiv(RSub(RDiv(RAdd("1", RMul(RSub("1", RMul("2", g22)), z)), Sq(RSub("1", RMul(g22, z)))), "1"), z)
      [] OTHER -> RDiv("1", RSub("1", RMul(ThetaOf(c, scheme), z)))

\* new sediment from old, depth H
SedStep(c, e0, cd, s0, h) ==
    LET l == RNeg(RDiv(cd, h))
        r == IF c.cons THEN e0 ELSE RDiv(e0, h)
        z == RMul(c.dt, l)
    IN  Ru(RAdd(s0, RMul(RMul(c.dt, RAdd(r, RMul(l, s0))), Phi(c, c.sscheme, z))))

\* change of bathymetry
BedChange(c, e0, cd, s0, s1, h) ==
    LET th == ThetaOf(c, c.escheme)
        sm == RAdd(RMul(th, s1), RMul(RSub("1", th), s0))
        d == IF c.cons THEN RDiv(RMul(cd, sm), h) ELSE RMul(cd, sm)
    IN  Ru(RMul(RMul(c.dt, Fac(c.p)), RSub(e0, d)))

\* boundaries of the flow on which nothing can pass
Closed(k) == k \in {"none", "drag", "un0", "uv0", "flux0"}

-----------------------------------------------------------------------------
XInit(c) == [c |-> c, k |-> 0, y |-> [u |-> "0", v |-> "0", eta |-> "0", s |-> "0", b |-> "0"], a |-> [susp |-> "0", bed |-> "0"]]

ModelFails(s, e) ==
    LET c == s.c
        p == c.p
        x == c.states[s.k + 1]
        q == Bedload(c, x)
        qs == RAdd(RAbs(q[1]), RAbs(q[2]))
    IN  Cl(RLe(e.var, "1e-5"), "uniform_closure")
        \cup Cl(Near(e.ws, Settling(p), "0"), "settling_velocity")
        \cup Cl(Near(e.tau, Stress(p, x), "1e-12"), "bed_stress")
        \cup (IF c.susp
              THEN Cl(Near(e.dep, Deposition(p, x), "0"), "deposition")
                   \cup Cl(Near(e.ero, Erosion(p, x), "1e-12"), "erosion")
                   \cup Cl(Near(e.eq, Equilibrium(p, x), "1e-12"), "equilibrium")
                   \cup Cl(Near(e.fac, IF c.adv THEN VelFactor(p, x) ELSE "1", "1e-3"), "velocity_factor")
              ELSE {})
        \cup (IF c.bed THEN Cl(Near(e.qx, q[1], RAdd(qs, "1e-13")) /\ Near(e.qy, q[2], RAdd(qs, "1e-13")), "bedload") ELSE {})

Flow(c, e, b) == [u |-> e.u, v |-> e.v, h |-> RAdd(b, e.eta), bx |-> "0", by |-> "0"]
StartS(c) ==
    IF c.start.s = "equilibrium"
    THEN LET x == [u |-> c.start.u, v |-> c.start.v, h |-> RAdd(c.start.b, c.start.eta), bx |-> "0", by |-> "0"]
             q == Equilibrium(c.p, x)
         IN  IF c.cons THEN RMul(q, x.h) ELSE q
    ELSE R(c.start.s)

InitFails(s, e) ==
    Cl(RLe(e.var, "1e-6"), "uniform") \cup
    (IF s.c.susp THEN Cl(Near(e.s, StartS(s.c), "1e-6"), "initial_sediment") ELSE {})

StepFails(s, e) ==
    LET c == s.c
        y == s.y
        x == Flow(c, e, y.b)
        e0 == Erosion(c.p, x)
        cd == Deposition(c.p, x)
        h0 == RAdd(y.b, y.eta)
        h1 == x.h
        sc == RSum(<<RAbs(y.s), RAbs(e.s), "1e-7">>)
        tol == RMul("5e-6", sc)
        hb == RAdd(e.b, e.eta)
        ex == RMul(RMul(c.dt, Fac(c.p)), RAdd(RAbs(e0), IF c.cons THEN RDiv(RMul(cd, RMax(RAbs(y.s), RAbs(e.s))), RMin(h1, hb)) ELSE RMul(cd, RMax(RAbs(y.s), RAbs(e.s)))))
    IN  Cl(RLe(e.var, "1e-6"), "uniform")
        \cup (IF c.tronly THEN Cl(Near(e.u, y.u, "1e-3") /\ Near(e.v, y.v, "1e-3") /\ Near(e.eta, y.eta, "1e-3"), "tracer_only_flow") ELSE {})
        \cup (IF c.susp THEN Cl(Between(e.s, SedStep(c, e0, cd, y.s, h0), SedStep(c, e0, cd, y.s, h1), tol), "suspended_sediment") ELSE {})
        \cup (IF c.exner
              THEN Cl(IF c.susp THEN Between(RSub(e.b, y.b), BedChange(c, e0, cd, y.s, e.s, h1), BedChange(c, e0, cd, y.s, e.s, hb), RAdd(RMul("1e-5", ex), "1e-10"))
                      ELSE RLe(RAbs(RSub(e.b, y.b)), "1e-10"), "bed_change")
              ELSE Cl(RLe(RAbs(RSub(e.b, y.b)), "1e-12"), "fixed_bed"))

\* moments of the change of bathymetry over the rectangle
Out(c, q, i) ==                       \* outward flux through side i
    IF Closed(c.sides[i]) THEN "0"
    ELSE CASE i = 1 -> RNeg(RMul(c.ly, q[1])) [] i = 2 -> RMul(c.ly, q[1]) [] i = 3 -> RNeg(RMul(c.lx, q[2])) [] i = 4 -> RMul(c.lx, q[2])
MomentFails(s, e) ==
    LET c == s.c
        x == c.states[1]
        q == Bedload(c, x)
        k == RMul(c.dt, Fac(c.p))
        area == RMul(c.lx, c.ly)
        o == [i \in 1..4 |-> Out(c, q, i)]
        m0 == RMul(k, RSum(<<o[1], o[2], o[3], o[4]>>))
        mx == RMul(k, RSub(RSum(<<RMul(o[2], c.lx), RMul(RDiv(c.lx, "2"), RAdd(o[3], o[4]))>>), RMul(area, q[1])))
        my == RMul(k, RSub(RSum(<<RMul(o[4], c.ly), RMul(RDiv(c.ly, "2"), RAdd(o[1], o[2]))>>), RMul(area, q[2])))
        qs == RMul(k, RAdd(RAbs(q[1]), RAbs(q[2])))
        sc == RAdd(RMul(qs, RAdd(c.lx, c.ly)), "1e-4")
        big == RAdd(RMul(qs, area), "1e-3")
    IN  Cl(Near(e.m0, m0, sc), "bed_mass") \cup Cl(Near(e.mx, mx, big) /\ Near(e.my, my, big), "bed_moments")

SlideFails(s, e) ==
    LET c == s.c
        x == c.states[1]
        g == RAdd(RMul(e.mx, x.bx), RMul(e.my, x.by))
        steep2 == RAdd(Sq(x.bx), Sq(x.by))
        t == RDiv(RSin(RDiv(RMul(c.p.angle, Pi), "180")), RCos(RDiv(RMul(c.p.angle, Pi), "180")))
    IN  Cl(RLe(RAbs(e.m0), "1e-6"), "bed_mass")
        \cup (IF RLt(steep2, Sq(t)) THEN Cl(RLe(RAbs(e.mx), "1e-6") /\ RLe(RAbs(e.my), "1e-6"), "slide_below_angle")
              ELSE Cl(RLt(g, "0"), "slide_direction"))

BudgetFails(s, e) ==
    LET c == s.c
        k == Fac(c.p)
        tot(z) == RSub(z.susp, RDiv(z.bed, k))
        tol == RSum(<<RMul(e.exch, RAdd("0.02", RDiv(RMul("2", e.db), e.hmin))), RMul("1e-7", RAbs(s.a.susp)), RDiv(RMul("1e-9", RAbs(s.a.bed)), k)>>)
    IN  IF s.k = 0 THEN {}
        ELSE Cl(RLe(RAbs(RSub(IF c.susp THEN tot(e) ELSE RNeg(RDiv(e.bed, k)), IF c.susp THEN tot(s.a) ELSE RNeg(RDiv(s.a.bed, k)))), tol), "sediment_budget")

XFails(s, e) ==
    CASE e.ev = "model" -> Cl(RLe("1", DStar(s.c.p)), "fine_grains_refused") \cup ModelFails(s, e)
      [] e.ev = "refused" -> Cl(RLt(DStar(s.c.p), "1"), "grains_accepted")
      [] e.ev = "init" -> InitFails(s, e)
      [] e.ev = "step" -> StepFails(s, e)
      [] e.ev = "moments" -> IF s.c.mode = "bed" THEN MomentFails(s, e) ELSE SlideFails(s, e)
      [] e.ev = "budget" -> BudgetFails(s, e)
      [] e.ev = "factor" -> LET f == s.c.factors[s.k + 1] IN Cl(Near(e.fac, VelFac(f.h, f.aref, f.ksp, f.ws, f.us), "1e-3"), "velocity_factor")
      [] OTHER -> {"unknown_event"}
XApply(s, e) ==
    CASE e.ev \in {"init", "step"} -> [s EXCEPT !.k = @ + 1, !.y = [u |-> e.u, v |-> e.v, eta |-> e.eta, s |-> e.s, b |-> e.b]]
      [] e.ev = "budget" -> [s EXCEPT !.k = @ + 1, !.a = [susp |-> e.susp, bed |-> e.bed]]
      [] OTHER -> [s EXCEPT !.k = @ + 1]
XInvFails(s) == {}
XFinal(s) == {}
====
