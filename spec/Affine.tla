---- MODULE Affine ----
(***************************************************************************)
(* The spatial operators of the 2D model on affine fields.                 *)
(*                                                                         *)
(* The state is a set of affine fields on a parallelogram: elevation,      *)
(* velocity, bathymetry, viscosity and tracers, each a polynomial          *)
(* <<a0, ax, ay>> = a0 + ax x + ay y.  All terms of the equations map such *)
(* states to affine tendencies, which every discretization represents     *)
(* exactly: one step of the forward Euler scheme must therefore give       *)
(* field + dt * tendency, on any mesh, with every element family, with     *)
(* every kind of boundary condition whose data agree with the field        *)
(* (Consistent), and whatever stabilization is selected.                   *)
(*                                                                         *)
(* cfg: dt, tol, geom <<ox, oy, ax, ay, bx, by>> (corner, two edges)       *)
(*  mode "swe":    eta, u, v, b (bathymetry), nl, visc ("none", "full",    *)
(*                 "graddiv", "graddepth"), nu, f, lin (linear drag),      *)
(*                 mom (two polynomials), wind (two numbers), vol,         *)
(*                 pres <<p0, px, py, pxx, pxy, pyy>>,                     *)
(*                 sides: kinds of the four boundaries                     *)
(*  mode "tracer": u, v, eta, b, k (velocity factor), cons, c, diff        *)
(*                 (diffusivity or "none"), src, sides                     *)
(*  The terms nu, f, lin, k that multiply u are restricted such that the   *)
(*  product is affine.                                                     *)
(* event: step  with f (the new fields, in the order u, v, eta or c) and   *)
(*              res (maximal deviation of the new fields from f)           *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

Cl(cond, n) == IF cond THEN {} ELSE {n}
grav == "9.81"
rho0 == "1000"
Zero3 == <<"0", "0", "0">>

\* affine polynomials
PAdd(p, q) == [i \in 1..3 |-> RAdd(p[i], q[i])]
PScale(a, p) == [i \in 1..3 |-> RMul(a, p[i])]
PNeg(p) == PScale("-1", p)
PSub(p, q) == PAdd(p, PNeg(q))
PConst(a) == <<R(a), "0", "0">>
IsConst(p) == RClose(p[2], "0", "0", "0") /\ RClose(p[3], "0", "0", "0")
\* product of two affine polynomials one of which is constant
PMul(p, q) == IF IsConst(p) THEN PScale(p[1], q) ELSE PScale(q[1], p)
PVal(p, x) == RAdd(p[1], RAdd(RMul(p[2], x[1]), RMul(p[3], x[2])))
DX(p) == R(p[2])
DY(p) == R(p[3])
PSum(seq) == [i \in 1..3 |-> RSum([j \in 1..Len(seq) |-> seq[j][i]])]

\* the four sides of the parallelogram: end points and outward normal (not normalized)
Corner(g, i, j) == <<RAdd(g[1], RAdd(RMul(i, g[3]), RMul(j, g[5]))), RAdd(g[2], RAdd(RMul(i, g[4]), RMul(j, g[6])))>>
Ends(g, k) == CASE k = 1 -> <<Corner(g, 0, 0), Corner(g, 0, 1)>>
                [] k = 2 -> <<Corner(g, 1, 0), Corner(g, 1, 1)>>
                [] k = 3 -> <<Corner(g, 0, 0), Corner(g, 1, 0)>>
                [] k = 4 -> <<Corner(g, 0, 1), Corner(g, 1, 1)>>
Normal(g, k) == CASE k = 1 -> <<RNeg(g[6]), R(g[5])>>
                  [] k = 2 -> <<R(g[6]), RNeg(g[5])>>
                  [] k = 3 -> <<R(g[4]), RNeg(g[3])>>
                  [] k = 4 -> <<RNeg(g[4]), R(g[3])>>
\* a linear combination of affine fields vanishes on a side
VanishesOn(g, k, a, p, b, q) ==
    \A m \in 1..2 : RAdd(RMul(a, PVal(p, Ends(g, k)[m])), RMul(b, PVal(q, Ends(g, k)[m]))) = "0"

Depth(c) == IF c.nl THEN PAdd(c.eta, c.b) ELSE c.b
Div(c) == RAdd(DX(c.u), DY(c.v))

\* viscous stress without the factor nu: rows i, columns j
Strain(c) == IF c.visc = "full"
             THEN <<<<DX(c.u), DY(c.u)>>, <<DX(c.v), DY(c.v)>>>>
             ELSE LET sh == RAdd(DY(c.u), DX(c.v)) IN <<<<RMul("2", DX(c.u)), sh>>, <<sh, RMul("2", DY(c.v))>>>>
StressFree(c, k) ==
    LET n == Normal(c.geom, k)
        s == Strain(c)
        tr(i) == RAdd(RMul(s[i][1], n[1]), RMul(s[i][2], n[2]))
    IN  \A m \in 1..2, i \in 1..2 : RMul(PVal(c.nu, Ends(c.geom, k)[m]), tr(i)) = "0"

(***************************************************************************)
(* Shallow water equations                                                 *)
(***************************************************************************)
SweSide(c, k) ==
    LET n == Normal(c.geom, k)
        noflow == VanishesOn(c.geom, k, n[1], c.u, n[2], c.v)
        notang == VanishesOn(c.geom, k, RNeg(n[2]), c.u, n[1], c.v)
        free == c.visc = "none" \/ StressFree(c, k)
        kind == c.sides[k]
    IN  CASE kind \in {"uv", "elev+uv"} -> TRUE
          [] kind = "elev" -> free
          [] kind \in {"un", "elev+un"} -> notang \/ ~c.nl
          [] kind \in {"flux", "elev+flux"} -> notang \/ (~c.nl /\ c.visc = "none")
          [] kind = "closed" -> noflow /\ free
SweConsistent(c) ==
    /\ \A k \in 1..4 : SweSide(c, k)
    /\ IsConst(c.f) \/ (IsConst(c.u) /\ IsConst(c.v))
    /\ c.wind = <<"0", "0">> \/ IsConst(Depth(c))
    /\ c.visc # "graddepth" \/ (\E m \in {"0"} \cup {R(c.nuk)} : c.nu = PScale(m, Depth(c)))

Viscosity(c, i) ==
    IF c.visc = "none" THEN Zero3
    ELSE LET s == Strain(c)
             d == RAdd(RMul(DX(c.nu), s[i][1]), RMul(DY(c.nu), s[i][2]))
             \* depth term: nu (grad H / H) . strain, with nu proportional to H
             h == IF c.visc # "graddepth" THEN "0"
                  ELSE RMul(c.nuk, RAdd(RMul(DX(Depth(c)), s[1][i]), RMul(DY(Depth(c)), s[2][i])))
         IN  PConst(RAdd(d, h))
Advection(c, p) == IF ~c.nl THEN Zero3 ELSE PAdd(PScale(DX(p), c.u), PScale(DY(p), c.v))
PresGrad(c) == << <<c.pres[2], RMul("2", c.pres[4]), c.pres[5]>>, <<c.pres[3], c.pres[5], RMul("2", c.pres[6])>> >>
Wind(c, i) == IF c.wind[i] = "0" THEN Zero3 ELSE PConst(RDiv(c.wind[i], RMul(rho0, Depth(c)[1])))
EtaT(c) == PAdd(c.vol, PNeg(PSum(<<PScale(Div(c), Depth(c)), PScale(DX(Depth(c)), c.u), PScale(DY(Depth(c)), c.v)>>)))
Mom(c, i, p, q, grad, cor) ==
    PSum(<<PConst(RNeg(RMul(grav, grad))), PNeg(Advection(c, p)), cor, PNeg(PScale(c.lin, p)), c.mom[i],
           PNeg(PScale(RDiv("1", rho0), PresGrad(c)[i])), Wind(c, i), Viscosity(c, i)>>)
UT(c) == Mom(c, 1, c.u, c.v, DX(c.eta), PMul(c.f, c.v))
VT(c) == Mom(c, 2, c.v, c.u, DY(c.eta), PNeg(PMul(c.f, c.u)))

(***************************************************************************)
(* Tracer equation                                                         *)
(***************************************************************************)
TrFlow(c, p) == PMul(c.k, p)
TracerSide(c, k) ==
    LET n == Normal(c.geom, k)
        dn == RAdd(RMul(n[1], DX(c.c)), RMul(n[2], DY(c.c)))
    IN  c.sides[k] # "none" \/ c.diff = Zero3 \/ dn = "0" \/ (\A m \in 1..2 : PVal(c.diff, Ends(c.geom, k)[m]) = "0")
TracerConsistent(c) ==
    /\ \A k \in 1..4 : TracerSide(c, k)
    /\ IsConst(c.k) \/ (IsConst(c.u) /\ IsConst(c.v))
    /\ ~c.cons \/ IsConst(c.src) \/ IsConst(Depth(c))
TracerT(c) ==
    LET u == TrFlow(c, c.u)
        v == TrFlow(c, c.v)
        adv == PAdd(PScale(DX(c.c), u), PScale(DY(c.c), v))
        comp == IF c.cons THEN PScale(RAdd(DX(u), DY(v)), c.c) ELSE Zero3
        diff == PConst(RAdd(RMul(DX(c.diff), DX(c.c)), RMul(DY(c.diff), DY(c.c))))
        src == IF c.cons THEN PMul(c.src, Depth(c)) ELSE c.src
    IN  PSum(<<PNeg(adv), PNeg(comp), diff, src>>)

(***************************************************************************)
(* Transition system: one step per run                                     *)
(***************************************************************************)
Expected(c) == IF c.mode = "swe"
               THEN <<PAdd(c.u, PScale(c.dt, UT(c))), PAdd(c.v, PScale(c.dt, VT(c))), PAdd(c.eta, PScale(c.dt, EtaT(c)))>>
               ELSE <<PAdd(c.c, PScale(c.dt, TracerT(c)))>>
Names(c) == IF c.mode = "swe" THEN <<"u", "v", "eta">> ELSE <<"tracer">>
Extent(c) == RMax("1", RAdd(RAdd(RAbs(c.geom[3]), RAbs(c.geom[5])), RAdd(RAbs(c.geom[4]), RAbs(c.geom[6]))))

AInit(c) == [c |-> c, n |-> 0]
AFails(s, e) ==
    LET c == s.c
        x == Expected(c)
        names == Names(c)
    IN
    CASE e.ev = "step" ->
           Cl(s.n = 0, "one_step")
           \cup Cl(IF c.mode = "swe" THEN SweConsistent(c) ELSE TracerConsistent(c), "bad_scenario")
           \cup UNION {
                LET d == [j \in 1..3 |-> RAbs(RSub(e.f[i][j], x[i][j]))]
                    scale == RMax("1", RMax(RAbs(c.scale), RAbs(x[i][1])))
                IN  Cl(/\ RLe(d[1], RMul(c.tol, scale))
                       /\ \A j \in 2..3 : RLe(RMul(d[j], Extent(c)), RMul(c.tol, scale)), names[i] \o "_tendency")
                    \cup Cl(RLe(e.res[i], RMul(c.tol, scale)), names[i] \o "_not_affine")
                : i \in 1..Len(x)}
      [] OTHER -> {"unknown_event"}
AApply(s, e) == [s EXCEPT !.n = @ + 1]
AInvFails(s) == {}
AFinal(s) == Cl(s.n = 1, "run_incomplete")
====
