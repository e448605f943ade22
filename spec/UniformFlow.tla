---- MODULE UniformFlow ----
(***************************************************************************)
(* Depth-averaged flow and tracers that do not vary in space.              *)
(*                                                                         *)
(* On a doubly periodic domain of constant depth a horizontally uniform    *)
(* state stays uniform, and the equations of the 2D model                  *)
(* (shallowwater_eq.py, tracer_eq_2d.py) are ordinary differential         *)
(* equations for u, v, eta and the tracers:                                *)
(*                                                                         *)
(*   du/dt =  f v - A u + taux/(rho0 H) + mx - (dp/dx)/rho0                *)
(*   dv/dt = -f u - A v + tauy/(rho0 H) + my - (dp/dy)/rho0                *)
(*   A     =  C + CD |u|/H + ct |u|/H                                      *)
(*   d(eta + D(eta))/dt = S                                                *)
(*   dc/dt = sigma   (non-conservative)    d(Hc)/dt = H sigma              *)
(*                                                                         *)
(* with |u| smoothed by norm_smoother in the bottom friction, CD constant, *)
(* by Manning's or by Nikuradse's law, D the displacement of the bed by    *)
(* wetting and drying.  The time steps are those of the documented         *)
(* schemes; the linearisation state (|u|, H) is that of the old time level *)
(* if the scheme is semi-implicit.                                         *)
(*                                                                         *)
(* Forcing fields are linear in time.  The model sees them as Functions    *)
(* ("func": the scheme keeps their old values), Constants or expressions   *)
(* of Constants (no separate old value).                                   *)
(*                                                                         *)
(* cfg: scheme, theta, picard (iterations of PressureProjectionPicard), semi, kind, nl (nonlinear), wd ("none" or alpha),   *)
(*      b, f, lin, drag, dragc, norm, turb, tau, mom, vol, press,          *)
(*      dt, t0, u, v, eta, tracers                                         *)
(*   tau, mom, press: <<x0, x1, y0, y1>> (value x0 + x1 t, ...);           *)
(*   vol: <<v0, v1>>; tracers: sequence of [c, s0, s1, cons]               *)
(* events: step(u, v, eta, c, var): state after a step, var = largest      *)
(*   deviation from uniformity                                             *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

Grav == "9.81"
Rho0 == "1000"
Kappa == "0.4"
DIGU == 32
Ru(x) == RRound(x, DIGU)
Cl(c, n) == IF c THEN {} ELSE {n}

g22 == "0.2928932188134524755991556379"
g33 == "0.4358665215"
b33a == RAdd(RSub(RMul("4", g33), RMul("3/2", RMul(g33, g33))), "-1/4")
b33b == RAdd(RSub(RMul("3/2", RMul(g33, g33)), RMul("5", g33)), "5/4")
UTab(name) ==
    CASE name = "BackwardEuler" -> [a |-> <<<<"1">>>>, b |-> <<"1">>, c |-> <<"1">>]
      [] name = "ForwardEuler" -> [a |-> <<<<"0">>>>, b |-> <<"1">>, c |-> <<"1">>]   \* forcing: see GTimes
      [] name = "SSPRK33" -> [a |-> <<<<"0", "0", "0">>, <<"1", "0", "0">>, <<"1/4", "1/4", "0">>>>,
                              b |-> <<"1/6", "1/6", "2/3">>, c |-> <<"0", "1", "1/2">>]
      [] name = "DIRK22" -> [a |-> <<<<g22, "0">>, <<RSub("1", g22), g22>>>>,
                             b |-> <<RSub("1", g22), g22>>, c |-> <<g22, "1">>]
      [] name = "DIRK33" -> [a |-> <<<<g33, "0", "0">>, <<RDiv(RSub("1", g33), "2"), g33, "0">>, <<b33a, b33b, g33>>>>,
                             b |-> <<b33a, b33b, g33>>, c |-> <<g33, RDiv(RAdd("1", g33), "2"), "1">>]

-----------------------------------------------------------------------------
\* depth and friction
Disp(c, eta) ==
    IF c.wd = "none" THEN "0"
    ELSE LET h == RAdd(c.b, eta) IN
         Ru(RMul("1/2", RSub(RSqrt(RAdd(RMul(h, h), RMul(c.wd, c.wd))), h)))
Depth(c, eta) == IF c.nl THEN RSum(<<c.b, eta, Disp(c, eta)>>) ELSE R(c.b)

Coef(c, h) ==
    CASE c.drag = "none" -> "0"
      [] c.drag = "quadratic" -> R(c.dragc)
      [] c.drag = "manning" -> RMul(Grav, RDiv(RMul(c.dragc, c.dragc), RPow(h, "1/3")))
      [] c.drag = "nikuradse" ->
            IF ~RLt(c.dragc, h) THEN "0"
            ELSE LET y == RLn(RDiv(RMul("11.036", h), c.dragc)) IN RDiv(RMul("2", RMul(Kappa, Kappa)), RMul(y, y))

Sq(x) == RMul(x, x)
\* turbines: thrust coefficient * swept area / 2 * density
Turb(c) == IF c.turb.density = "0" THEN "0"
           ELSE RMul(RMul(RDiv("3.14159265358979323846", "8"), RMul(c.turb.ct, Sq(c.turb.diam))), c.turb.density)
\* damping rate A, linearised at the state (u, v, eta)
Rate(c, y) ==
    LET h == Depth(c, y.eta)
        q == RAdd(Sq(y.u), Sq(y.v))
    IN  Ru(RSum(<<c.lin, RDiv(RMul(Coef(c, h), RSqrt(RAdd(q, Sq(c.norm)))), h), RDiv(RMul(Turb(c), RSqrt(q)), h)>>))

LinT(p, i, t) == RAdd(p[i], RMul(p[i + 1], t))
\* acceleration that does not depend on the velocity
Gx(c, h, t) == Ru(RSum(<<RDiv(LinT(c.tau, 1, t), RMul(Rho0, h)), LinT(c.mom, 1, t), RNeg(RDiv(LinT(c.press, 1, t), Rho0))>>))
Gy(c, h, t) == Ru(RSum(<<RDiv(LinT(c.tau, 3, t), RMul(Rho0, h)), LinT(c.mom, 3, t), RNeg(RDiv(LinT(c.press, 3, t), Rho0))>>))

\* tendency of (u, v) in state y, linearised at yn, forcing of time t
Fu(c, y, yn, t) == RSum(<<RMul(c.f, y.v), RNeg(RMul(Rate(c, yn), y.u)), Gx(c, Depth(c, yn.eta), t)>>)
Fv(c, y, yn, t) == RSum(<<RNeg(RMul(c.f, y.u)), RNeg(RMul(Rate(c, yn), y.v)), Gy(c, Depth(c, yn.eta), t)>>)

-----------------------------------------------------------------------------
\* time levels of the forcing: the old level of a Function is the previous time, anything else has
\* the value that the last call of update_forcings gave it
TOld(c, t) == IF c.kind = "func" THEN t ELSE RAdd(t, c.dt)

\* one-step residual schemes (theta scheme; backward Euler)
Theta(c) == IF c.scheme = "BackwardEuler" THEN "1" ELSE R(c.theta)
Mix(c, a, b) == RAdd(RMul(Theta(c), a), RMul(RSub("1", Theta(c)), b))
ResU(c, t, y, w) ==
    LET nl == IF c.semi THEN y ELSE w
        tn == RAdd(t, c.dt)
    IN  <<RSub(RSub(w.u, y.u), RMul(c.dt, Mix(c, Fu(c, w, nl, tn), Fu(c, y, y, TOld(c, t))))),
          RSub(RSub(w.v, y.v), RMul(c.dt, Mix(c, Fv(c, w, nl, tn), Fv(c, y, y, TOld(c, t))))),
          RSub(RSub(RAdd(w.eta, Disp(c, w.eta)), RAdd(y.eta, Disp(c, y.eta))),
               RMul(c.dt, Mix(c, LinT(c.vol, 1, tn), LinT(c.vol, 1, TOld(c, t)))))>>

\* Runge-Kutta schemes: stages of the linear (semi-implicit) or explicit problem
GTime(c, t, ci) == IF c.scheme = "ForwardEuler" THEN TOld(c, t) ELSE RAdd(t, RMul(ci, c.dt))
Comb(w, k, i) == RDot([j \in 1..Len(k) |-> w[j]], [j \in 1..Len(k) |-> k[j][i]])
RECURSIVE UStages(_, _, _, _, _)
UStages(c, tab, t, y, k) ==
    LET i == Len(k) + 1 IN
    IF i > Len(tab.b) THEN k
    ELSE LET ti == GTime(c, t, tab.c[i])
             base == [u |-> Ru(RAdd(y.u, RMul(c.dt, Comb(tab.a[i], k, 1)))),
                      v |-> Ru(RAdd(y.v, RMul(c.dt, Comb(tab.a[i], k, 2)))),
                      eta |-> Ru(RAdd(y.eta, RMul(c.dt, Comb(tab.a[i], k, 3))))]
             gam == RMul(c.dt, tab.a[i][i])
             nl == IF gam = "0" THEN base ELSE y
             a == Rate(c, nl)
             h == Depth(c, nl.eta)
             rx == RAdd(base.u, RMul(gam, Gx(c, h, ti)))
             ry == RAdd(base.v, RMul(gam, Gy(c, h, ti)))
             d == RAdd("1", RMul(gam, a))
             e == RMul(gam, c.f)
             det == RAdd(Sq(d), Sq(e))
             U == [u |-> Ru(RDiv(RAdd(RMul(d, rx), RMul(e, ry)), det)),
                   v |-> Ru(RDiv(RSub(RMul(d, ry), RMul(e, rx)), det)),
                   eta |-> RAdd(base.eta, RMul(gam, LinT(c.vol, 1, ti)))]
         IN  UStages(c, tab, t, y, Append(k, <<Ru(Fu(c, U, nl, ti)), Ru(Fv(c, U, nl, ti)), LinT(c.vol, 1, ti)>>))
UStep(c, t, y) ==
    LET tab == UTab(c.scheme)
        k == UStages(c, tab, t, y, <<>>)
    IN  [u |-> RAdd(y.u, RMul(c.dt, Comb(tab.b, k, 1))), v |-> RAdd(y.v, RMul(c.dt, Comb(tab.b, k, 2))),
         eta |-> RAdd(y.eta, RMul(c.dt, Comb(tab.b, k, 3)))]

\* Picard iterations of the pressure projection scheme: the momentum equation is linearised at the result
\* of the previous iteration (at the old state in a single iteration); in uniform flow the pressure
\* correction does not change the velocity
PFixed(c, t, y, eta, nl) ==
    LET tn == RAdd(t, c.dt)
        th == R(c.theta)
        gam == RMul(c.dt, th)
        old == RMul(c.dt, RSub("1", th))
        h == Depth(c, nl.eta)
        rx == RSum(<<y.u, RMul(old, Fu(c, y, y, TOld(c, t))), RMul(gam, Gx(c, h, tn))>>)
        ry == RSum(<<y.v, RMul(old, Fv(c, y, y, TOld(c, t))), RMul(gam, Gy(c, h, tn))>>)
        d == RAdd("1", RMul(gam, Rate(c, nl)))
        e == RMul(gam, c.f)
        det == RAdd(Sq(d), Sq(e))
    IN  [u |-> Ru(RDiv(RAdd(RMul(d, rx), RMul(e, ry)), det)), v |-> Ru(RDiv(RSub(RMul(d, ry), RMul(e, rx)), det)), eta |-> eta]
RECURSIVE PIter(_, _, _, _, _, _)
PIter(c, t, y, eta, lag, k) == IF k = 0 THEN lag ELSE PIter(c, t, y, eta, PFixed(c, t, y, eta, lag), k - 1)
\* eta: the new elevation (decided by the volume equation)
PStep(c, t, y, eta) == PIter(c, t, y, eta, y, c.picard)

-----------------------------------------------------------------------------
\* tracers: sigma at the times of the scheme; q' = H sigma in conservative form
Src(x, t) == RAdd(x.s0, RMul(x.s1, t))
\* a tracer source is a field like the others
TStep(c, x, t, val, ho, hn) ==
    LET tn == RAdd(t, c.dt)
        hh(a) == IF x.cons THEN a ELSE "1"
        tab == UTab(c.tscheme)
        rate == CASE c.tscheme = "CrankNicolson" ->
                        RAdd(RMul(c.ttheta, RMul(hh(hn), Src(x, tn))), RMul(RSub("1", c.ttheta), RMul(hh(ho), Src(x, TOld(c, t)))))
                  [] c.tscheme = "ForwardEuler" -> RMul(hh(ho), Src(x, TOld(c, t)))
                  [] OTHER -> RMul(hh(hn), RDot(tab.b, [i \in 1..Len(tab.b) |-> Src(x, RAdd(t, RMul(tab.c[i], c.dt)))]))
    IN  RAdd(val, RMul(c.dt, rate))

-----------------------------------------------------------------------------
UInit(c) == [c |-> [c EXCEPT !.dt = R(@)], t |-> R(c.t0),
             y |-> [u |-> R(c.u), v |-> R(c.v), eta |-> R(c.eta)],
             tr |-> [i \in 1..Len(c.tracers) |-> R(c.tracers[i].c)]]
ResidualScheme(c) == c.scheme = "CrankNicolson" \/ (c.scheme = "BackwardEuler" /\ (~c.semi \/ c.wd # "none"))
Big(s, e) == RSum(<<RAbs(s.y.u), RAbs(s.y.v), RAbs(e.u), RAbs(e.v), "1/100">>)
Near(a, b, scale) == RLe(RAbs(RSub(a, b)), RMul("2e-9", scale))
\* the initial projection to a space without block diagonal mass matrix is iterative
UTol(c) == IF c.family = "dg-dg" THEN "2e-9" ELSE "5e-6"
UFails(s, e) ==
    IF e.ev # "step" THEN {"unknown_event"}
    ELSE
    LET c == s.c
        w == [u |-> e.u, v |-> e.v, eta |-> e.eta]
        big == Big(s, e)
        etas == RAdd(RAbs(e.eta), "1")
        NearV(a, b) == RLe(RAbs(RSub(a, b)), RMul(UTol(c), big))
    IN  Cl(RLe(e.var, RMul(UTol(c), RAdd(big, "1"))), "uniform")
        \cup (IF c.tronly THEN Cl(Near(s.y.u, e.u, big) /\ Near(s.y.v, e.v, big) /\ Near(s.y.eta, e.eta, etas), "tracer_only_flow")
              ELSE IF c.scheme = "PressureProjectionPicard"
              THEN LET r == ResU(c, s.t, s.y, w)
                       x == PStep(c, s.t, s.y, R(e.eta))
                   IN  Cl(NearV(x.u, e.u), "momentum_x") \cup Cl(NearV(x.v, e.v), "momentum_y")
                       \cup Cl(Near(r[3], "0", etas), "volume")
              ELSE IF ResidualScheme(c)
              THEN LET r == ResU(c, s.t, s.y, w) IN
                   Cl(NearV(r[1], "0"), "momentum_x") \cup Cl(NearV(r[2], "0"), "momentum_y")
                   \cup Cl(Near(r[3], "0", etas), "volume")
              ELSE LET x == UStep(c, s.t, s.y) IN
                   Cl(NearV(x.u, e.u), "momentum_x") \cup Cl(NearV(x.v, e.v), "momentum_y")
                   \cup Cl(Near(x.eta, e.eta, etas), "volume"))
        \cup Cl(Len(e.c) = Len(s.tr) /\ \A i \in 1..Len(s.tr) :
                   LET z == TStep(c, c.tracers[i], s.t, s.tr[i], Depth(c, s.y.eta), Depth(c, e.eta))
                   IN  Near(e.c[i], z, RAdd(RAbs(z), "1")), "tracer_source")
UApply(s, e) == [s EXCEPT !.t = RAdd(@, s.c.dt), !.y = [u |-> R(e.u), v |-> R(e.v), eta |-> R(e.eta)],
                          !.tr = [i \in 1..Len(@) |-> R(e.c[i])]]
UInvFails(s) == Cl(s.c.wd = "none" \/ RLt("0", Depth(s.c, s.y.eta)), "depth_positive")
UFinal(s) == {}
====
