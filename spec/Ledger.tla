---- MODULE Ledger ----
(***************************************************************************)
(* Budgets, rest and constancy of the 2D model.                            *)
(*                                                                         *)
(* The state of a run in a closed basin is its ledger: the volume of       *)
(* water, the mass of every tracer and the ranges of the fields that must  *)
(* not change.  A time step may change                                     *)
(*   - the volume by the integral of the volume source,                    *)
(*   - the mass of a tracer by the integral of its source,                 *)
(* weighted in time as the scheme prescribes, and nothing else: transport, *)
(* diffusion, limiting, friction, rotation, wind, and the motion of the    *)
(* free surface only redistribute water and tracers.  A tracer that is     *)
(* uniform stays uniform in every flow; water at rest stays at rest.       *)
(*                                                                         *)
(* cfg: scheme, tscheme, theta, ttheta, nl, wd, tronly, dt, t0, tol,       *)
(*      vol: <<a, b, r>>   volume source (a + b x)(1 + r t),               *)
(*      lx, ly             the basin has the volume source integral        *)
(*                         (a lx + b lx^2/2) ly                            *)
(*      tracers: sequence of [kind, s0, s1]                                *)
(*        kind "cons":    conservative form, uniform source s0 + s1 t      *)
(*             "consw":   the same in a coupled run: the discrete velocity *)
(*                        has a (small) normal component on the walls, the *)
(*                        flux through the wall is part of the ledger      *)
(*             "div":     non-conservative form, divergence-free flow      *)
(*             "uniform": non-conservative form, initially uniform         *)
(*             "frozen":  in water at rest without diffusion               *)
(*      rest:  TRUE: water at rest (surface in balance with the pressure)  *)
(* events: init / step with vol (integral of elevation and displacement), *)
(*      wvol (the same with the quadrature of the tracer equation),   *)
(*      bvol (integral of the bathymetry), mass (per tracer), wall (flux   *)
(*      of every tracer through the walls), umax (max.                     *)
(*      speed), eta (max. deviation from the balanced surface), hmin       *)
(*      (min. depth), dev (per tracer: max. deviation from the initial     *)
(*      values)                                                            *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

Cl(c, n) == IF c THEN {} ELSE {n}
\* weights w of the source at t + c dt ("rk") of the schemes, only time-linear sources are used, so that
\* the first moment suffices: sum(w) = 1, sum(w c) = Mom
gam == "0.2928932188134524755991556379"
g33 == "0.4358665215"
b33a == RAdd(RSub(RMul("4", g33), RMul("3/2", RMul(g33, g33))), "-1/4")
b33b == RAdd(RSub(RMul("3/2", RMul(g33, g33)), RMul("5", g33)), "5/4")
Mom(scheme, theta) ==
    CASE scheme \in {"CrankNicolson", "PressureProjectionPicard"} -> R(theta)
      [] scheme = "BackwardEuler" -> "1"
      [] scheme = "ForwardEuler" -> "0"
      [] scheme = "SSPRK33" -> "1/2"
      [] scheme = "DIRK22" -> RAdd(RMul(RSub("1", gam), gam), gam)
      [] scheme = "DIRK33" -> RDot(<<b33a, b33b, g33>>, <<g33, RDiv(RAdd("1", g33), "2"), "1">>)
\* mean over the step of a quantity that is x0 + x1 t
Mean(scheme, theta, x0, x1, t, dt) == RAdd(x0, RMul(x1, RAdd(t, RMul(Mom(scheme, theta), dt))))

VolSource(c) == RMul(RAdd(RMul(c.vol[1], c.lx), RMul(RMul("1/2", c.vol[2]), RMul(c.lx, c.lx))), c.ly)
VolGain(c, t) == RMul(c.dt, Mean(c.scheme, c.theta, VolSource(c), RMul(VolSource(c), c.vol[3]), t, c.dt))

Water(c, v, b) == IF c.nl THEN RAdd(v, b) ELSE R(b)
Conservative(x) == x.kind \in {"cons", "consw"}
\* loss through the walls, from the fluxes before and after the step
WallLoss(c, x, fo, fn) ==
    IF x.kind # "consw" THEN "0"
    ELSE RMul(c.dt, CASE c.tscheme = "CrankNicolson" -> RAdd(RMul(c.ttheta, fn), RMul(RSub("1", c.ttheta), fo))
                      [] c.tscheme = "BackwardEuler" -> R(fn)
                      [] c.tscheme = "ForwardEuler" -> R(fo))
\* gain of tracer x; wo, wn: volume of water before and after the step; a: area of the basin
Gain(c, x, t, wo, wn) ==
    LET s(tt) == RAdd(x.s0, RMul(x.s1, tt))
        tn == RAdd(t, c.dt)
        th == R(c.ttheta)
        a == RMul(c.lx, c.ly)
    IN  CASE Conservative(x) /\ c.tscheme = "CrankNicolson" ->
                RMul(c.dt, RAdd(RMul(RMul(th, s(tn)), wn), RMul(RMul(RSub("1", th), s(t)), wo)))
          [] Conservative(x) /\ c.tscheme = "ForwardEuler" -> RMul(c.dt, RMul(s(t), wo))
          [] Conservative(x) -> RMul(RMul(c.dt, wn), Mean(c.tscheme, c.ttheta, x.s0, x.s1, t, c.dt))
          [] x.kind = "div" -> RMul(RMul(c.dt, a), Mean(c.tscheme, c.ttheta, x.s0, x.s1, t, c.dt))
          [] OTHER -> "0"

LInit(c) == [c |-> c, t |-> R(c.t0), led |-> [on |-> FALSE]]
\* scale: what rounding errors are relative to
Same(a, b, scale, c) == RLe(RAbs(RSub(a, b)), RMul(c.tol, scale))
LFails(s, e) ==
    LET c == s.c
        p == s.led
        n == Len(c.tracers)
    IN
    CASE e.ev = "init" -> Cl(~p.on /\ Len(e.mass) = n, "init_twice")
                          \cup Cl(~c.rest \/ (e.umax = "0" /\ RLe(e.eta, "1e-12")), "bad_scenario")
      [] e.ev = "step" /\ p.on ->
           LET wo == Water(c, p.wvol, p.bvol)
               wn == Water(c, e.wvol, e.bvol)
               vg == IF c.tronly THEN "0" ELSE VolGain(c, s.t)
               scale == RAdd(RAbs(p.bvol), RAbs(p.vol))
           IN  Cl(Same(e.vol, RAdd(p.vol, vg), scale, c), "volume_budget")
               \cup Cl(e.bvol = p.bvol, "bathymetry_changed")
               \cup UNION {
                    LET x == c.tracers[i] IN
                    IF Conservative(x) \/ x.kind = "div"
                    THEN Cl(Same(e.mass[i], RSub(RAdd(p.mass[i], Gain(c, x, s.t, wo, wn)), WallLoss(c, x, p.wall[i], e.wall[i])), p.scale[i], c),
                            IF Conservative(x) THEN "mass_budget_conservative" ELSE "mass_budget")
                    ELSE Cl(Same(e.dev[i], "0", p.cscale[i], c), IF x.kind = "uniform" THEN "uniform_tracer" ELSE "tracer_at_rest")
                    : i \in 1..n}
               \cup Cl(~c.rest \/ (Same(e.umax, "0", "1", c) /\ Same(e.eta, "0", "1", c)), "rest")
               \cup Cl(c.wd = "none" \/ RLt("0", e.hmin), "depth_positive")
      [] OTHER -> {"unknown_event"}
LApply(s, e) ==
    IF e.ev = "init"
    THEN [s EXCEPT !.led = [on |-> TRUE, vol |-> R(e.vol), wvol |-> R(e.wvol), bvol |-> R(e.bvol), mass |-> [i \in 1..Len(e.mass) |-> R(e.mass[i])],
                            wall |-> e.wall, scale |-> e.scale, cscale |-> e.cscale]]
    ELSE [s EXCEPT !.t = RAdd(@, s.c.dt), !.led.vol = R(e.vol), !.led.wvol = R(e.wvol), !.led.wall = e.wall, !.led.mass = [i \in 1..Len(e.mass) |-> R(e.mass[i])]]
LInvFails(s) == {}
LFinal(s) == Cl(s.led.on, "run_incomplete")
====
