---- MODULE Diag3d ----
(***************************************************************************)
(* Geometry and diagnostic fields of the 3D model on a mesh that follows   *)
(* the free surface (utility3d.py, utility.py, momentum_eq.py,             *)
(* turbulence.py, solver.py).                                              *)
(*                                                                         *)
(* A run assigns a sequence of states to one solver; after each of them    *)
(* the mesh, the fields and the results of the vertical operators are      *)
(* those of that state alone: nothing may be left of an earlier one.       *)
(* The 2D mesh is a rectangle cut into nx x ny cells of two triangles; its *)
(* vertices are numbered 1 + i + (nx+1) j.  A prism column is the part of  *)
(* the domain over a triangle; a P1 function on the triangle is given by   *)
(* its three values.                                                       *)
(*                                                                         *)
(* The level k of the reference mesh lies at zr = -h (1-k/n)^stretch, that *)
(* of the moving mesh at zr + eta (zr+h)/h.  The thickness of a layer is a *)
(* P1 function d; the discrete vertical integral of f over the layer is    *)
(* the L2 projection of the product d f to P1 (Prod).                      *)
(*                                                                         *)
(* cfg: nx, ny, lx, ly, n, stretch, h (values at the vertices), ale, open, *)
(*   dt, cs, eos ("linear", "full"), lin, salt, temp, quad, smag, turb,    *)
(*   pp, states                                                            *)
(* state: eta, eta1 (at vertices), u2: <<a, ax, ay, b, bx, by>> (affine    *)
(*   depth average), u3: the two components of the deviation, each         *)
(*   <<"lin", <<a, ax, ay, az>>>> or <<"rand", <<>>>>, salt, temp likewise,*)
(*   bu, bd: boundary values of the integrals, pgk, c                      *)
(* event state: z (levels of every vertex), ecg, hs, flux, cells: sequence *)
(*   of columns with vertices vs and nodal values; a P1DG x P1DG function  *)
(*   is a sequence over layers of <<lower, upper>> triples, a P1DG x P2    *)
(*   function the sequence of triples at bed, midpoint, level, ...         *)
(* event mixing: another stratification and shear on the same mesh; cells: *)
(*   sequence of columns with vs, u, salt, temp, rho, m2, n2, nu, mu       *)
(* event wmesh: w (at the levels of every vertex)                          *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

G == "9.81"
Rho0 == "1000"
Dg == 26
Ru(x) == RRound(x, Dg)
Cl(ok, name) == IF ok THEN {} ELSE {name}
Near(a, b) == RClose(a, b, "1e-7", "1e-8")
Near3(p, q) == \A a \in 1..3: Near(p[a], q[a])
Sq(x) == RMul(x, x)

-----------------------------------------------------------------------------
\* geometry
NV(c) == (c.nx + 1)*(c.ny + 1)
VX(c, v) == RDiv(RMul(c.lx, ToString((v - 1) % (c.nx + 1))), ToString(c.nx))
VY(c, v) == RDiv(RMul(c.ly, ToString((v - 1) \div (c.nx + 1))), ToString(c.ny))
Sig(c, k) == IF k = c.n THEN "0" ELSE RPow(RSub("1", RDiv(ToString(k), ToString(c.n))), c.stretch)
Zref(c, v, k) == Ru(RNeg(RMul(c.h[v], Sig(c, k))))
Eta(c, st, v) == IF c.ale THEN st.eta[v] ELSE "0"
Zc(c, st, v, k) == LET zr == Zref(c, v, k)
                   IN  Ru(RAdd(zr, RDiv(RMul(Eta(c, st, v), RAdd(zr, c.h[v])), c.h[v])))
\* levels of the vertices of a column: [level + 1][vertex]
Lev(c, st, vs) == TLCEval([k \in 1..(c.n + 1) |-> TLCEval([a \in 1..3 |-> Zc(c, st, vs[a], k - 1)])])
Thick(z) == TLCEval([k \in 1..(Len(z) - 1) |-> TLCEval([a \in 1..3 |-> RSub(z[k + 1][a], z[k][a])])])
Max3(p) == RMax(p[1], RMax(p[2], p[3]))
Min3(p) == RMin(p[1], RMin(p[2], p[3]))
Mean3(p) == RDiv(RSum(p), "3")

\* L2 projection to P1 of the product of two P1 functions
T60(a, b, d) == IF a = b /\ b = d THEN "6" ELSE IF a = b \/ b = d \/ a = d THEN "2" ELSE "1"
Prod(p, q) ==
  LET b == TLCEval([a \in 1..3 |-> RDiv(RSum([m \in 1..9 |->
              LET x == 1 + ((m - 1) \div 3)  y == 1 + ((m - 1) % 3)
              IN  RMul(T60(a, x, y), RMul(p[x], q[y]))]), "60")])
  IN  TLCEval([a \in 1..3 |-> Ru(RMul("12", RSub(b[a], RDiv(RSum(b), "4"))))])
Comb(a, p, b, q) == TLCEval([i \in 1..3 |-> RAdd(RMul(a, p[i]), RMul(b, q[i]))])
Add3(p, q) == Comb("1", p, "1", q)

\* integral over the layers from the bed (f: P1DG x P1DG, d: thickness):
\* values at bed, midpoint, level, ... as in the events
RECURSIVE Up(_, _, _)
Up(d, f, k) ==
  IF k = 0 THEN << <<"0", "0", "0">> >>
  ELSE LET r == Up(d, f, k - 1)
           b == r[Len(r)]
       IN  r \o << Add3(b, Prod(d[k], Comb("3/8", f[k][1], "1/8", f[k][2]))),
                   Add3(b, Prod(d[k], Comb("1/2", f[k][1], "1/2", f[k][2]))) >>
Shift(r, x) == TLCEval([i \in 1..Len(r) |-> Comb("1", r[i], "1", <<x, x, x>>)])
\* the integral that takes the value bu at the bed / bd at the surface
FromBed(r, bu) == Shift(r, bu)
FromTop(r, bd) == TLCEval([i \in 1..Len(r) |-> Comb("1", Comb("1", r[i], "-1", r[Len(r)]), "1", <<bd, bd, bd>>)])
\* depth average up to level k, layers weighted with their share of the depth
RECURSIVE Avg(_, _, _)
Avg(w, f, k) == IF k = 0 THEN <<"0", "0", "0">>
                ELSE Add3(Avg(w, f, k - 1), Comb(RDiv(w[k], "2"), f[k][1], RDiv(w[k], "2"), f[k][2]))
Share(c) == TLCEval([k \in 1..c.n |-> RSub(Sig(c, k - 1), Sig(c, k))])

-----------------------------------------------------------------------------
\* equation of state
RECURSIVE Horner(_, _)
Horner(x, co) == IF Len(co) = 0 THEN "0" ELSE RAdd(Head(co), RMul(x, Horner(x, Tail(co))))
JackettRho(sal, t) ==
  LET sp == RMax(sal, "0")
      num == RAdd(Horner(t, <<"9.9984085444849347e2", "7.3471625860981584e0", "-5.3211231792841769e-2", "3.6492439109814549e-4">>),
                  RMul(sp, RAdd("2.5880571023991390e0", RAdd(RMul("-6.7168282786692355e-3", t), RMul("1.9203202055760151e-3", sp)))))
      s32 == IF sp = "0" THEN "0" ELSE RMul(sp, RSqrt(sp))
      den == RAdd(Horner(t, <<"1", "7.2815210113327091e-3", "-4.4787265461983921e-5", "3.3851002965802430e-7", "1.3651202389758572e-10">>),
                  RAdd(RMul(sp, RAdd("1.7632126669040377e-3", RAdd(RMul("-8.8066583251206474e-6", t),
                                       RMul("-1.8832689434804897e-10", RMul(t, RMul(t, t)))))),
                       RMul(s32, RAdd("5.7463776745432097e-6", RMul("1.4716275472242334e-9", RMul(t, t))))))
  IN  RSub(RDiv(num, den), Rho0)
LinRho(p, sal, t) == RAdd(RSub(p.rho_ref, Rho0), RSub(RMul(p.beta, RSub(sal, p.s_ref)), RMul(p.alpha, RSub(t, p.th_ref))))
Dens(c, sal, t) == IF c.eos = "linear" THEN LinRho(c.lin, sal, t) ELSE JackettRho(sal, t)

-----------------------------------------------------------------------------
\* gradient of a P1 function on the triangle
GradX(x, y, p) == RDiv(RSum(<<RMul(p[1], RSub(y[2], y[3])), RMul(p[2], RSub(y[3], y[1])), RMul(p[3], RSub(y[1], y[2]))>>),
                       RSum(<<RMul(x[1], RSub(y[2], y[3])), RMul(x[2], RSub(y[3], y[1])), RMul(x[3], RSub(y[1], y[2]))>>))
GradY(x, y, p) == GradX(y, x, p)

IsLin(sp) == sp[1] = "lin"
FlatU(st) == IsLin(st.u3[1]) /\ IsLin(st.u3[2]) /\ st.u3[1][2][4] = "0" /\ st.u3[2][2][4] = "0"
\* total horizontal velocity, affine
Tot(st) == [i \in 1..6 |-> RAdd(st.u2[i], IF i <= 3 THEN st.u3[1][2][i] ELSE st.u3[2][2][i - 3])]

All6(n, P(_, _, _)) == \A k \in 1..n: \A b \in 1..2: \A a \in 1..3: P(k, b, a)

\* vertical gradient of a P1DG x P1DG function in P0, per layer
VGrad(n, d, f) ==
  LET Face(k) == IF k = 0 THEN Mean3(f[1][1]) ELSE IF k = n THEN Mean3(f[n][2])
                 ELSE RDiv(RAdd(Mean3(f[k][2]), Mean3(f[k + 1][1])), "2")
  IN  TLCEval([k \in 1..n |-> Ru(RDiv(RSub(Face(k), Face(k - 1)), Mean3(d[k])))])

HSize(c) == RSqrt(RDiv(RMul(c.lx, c.ly), ToString(2*c.nx*c.ny)))
Smag(c, st) ==
  LET u == st.u3[1][2]  v == st.u3[2][2]
      dt == RSub(u[2], v[3])  ds == RAdd(u[3], v[2])
      nu == RMul(RMul(Sq(c.cs), Sq(HSize(c))), RSqrt(RAdd(Sq(dt), Sq(ds))))
  IN  RMin(RMax(nu, "1e-10"), RDiv(Sq(HSize(c)), RMul("120", c.dt)))

\* internal pressure gradient g grad_h r, r = 1/rho0 int_z^eta rho'
\*  "flat": horizontal bed and surface, density affine in space
\*  "uniform": constant density, the surface is a plane
RhoCo(c, st) == [i \in 1..4 |-> RSub(IF c.salt THEN RMul(c.lin.beta, st.salt[2][i]) ELSE "0",
                                     IF c.temp THEN RMul(c.lin.alpha, st.temp[2][i]) ELSE "0")]
RhoConst(c, st) == Dens(c, IF c.salt THEN st.salt[2][1] ELSE c.s0, IF c.temp THEN st.temp[2][1] ELSE c.t0)

\* shear and buoyancy frequency, Pacanowski-Philander viscosity and diffusivity of a column
MixFails(c, st, r) ==
  LET n == c.n
      d == Thick(Lev(c, st, r.vs))
      gu == VGrad(n, d, r.u[1])  gv == VGrad(n, d, r.u[2])  gr == VGrad(n, d, r.rho)
      m2(k) == RMax(RAdd(Sq(gu[k]), Sq(gv[k])), "1e-12")
      n2(k) == RNeg(RMul(RDiv(G, Rho0), gr[k]))
      den(k) == RAdd("1", RMul(c.pp.alpha, RDiv(IF RLe("0", r.n2[k]) THEN r.n2[k] ELSE "1e-12", r.m2[k])))
      nu(k) == RDiv(c.pp.max_viscosity, RPow(den(k), c.pp.exponent))
  IN  Cl(\A k \in 1..n: RClose(r.m2[k], m2(k), "1e-6", "1e-13"), "shear_frequency")
      \cup Cl(\A k \in 1..n: RClose(r.n2[k], n2(k), "1e-6", "1e-11"), "buoyancy_frequency")
      \cup Cl(\A k \in 1..n: RClose(r.nu[k], nu(k), "1e-6", "1e-14"), "eddy_viscosity")
      \cup Cl(\A k \in 1..n: RClose(r.mu[k], RDiv(nu(k), den(k)), "1e-6", "1e-14"), "eddy_diffusivity")

CellFails(c, st, r) ==
  LET n == c.n
      z == Lev(c, st, r.vs)
      d == Thick(z)
      x == [a \in 1..3 |-> VX(c, r.vs[a])]
      y == [a \in 1..3 |-> VY(c, r.vs[a])]
      hh == [a \in 1..3 |-> c.h[r.vs[a]]]
      w == Share(c)
      tol == IF c.family = "dg-dg" THEN "1e-7" ELSE "1e-6"  \* H(div) fields are projected with a tolerance of 1e-8
      u == TLCEval(Up(d, r.f, n))
      up == FromBed(u, st.bu)
      down == FromTop(u, st.bd)
      hd == TLCEval(FromTop(TLCEval(Up(d, r.rho, n)), "0"))
      sl(k, b) == LET zz == z[IF b = 1 THEN k ELSE k + 1] IN RSub(Max3(zz), Min3(zz))
  IN  Cl(All6(n, LAMBDA k, b, a: Near(r.ez[k][b][a], d[k][a])) /\ Near3(r.ez2, d[n]), "elem_height")
      \cup Cl(All6(n, LAMBDA k, b, a: Near(r.hcc[k][b][a], RDiv(sl(k, b), d[k][a]))), "hcc")
      \cup Cl(\A i \in 1..Len(up): Near3(r.up[i], up[i]), "integral_from_bed")
      \cup Cl(\A k \in 1..n: Near3(r.dgup[k][2], up[2*k + 1]), "dg_integral_from_bed")
      \cup Cl(\A i \in 1..Len(down): Near3(r.down[i], down[i]), "integral_from_surface")
      \cup Cl(\A k \in 1..n: Near3(r.dgdown[k][1], down[2*k - 1]), "dg_integral_from_surface")
      \cup Cl(\A k \in 1..n: Near3(r.av[k][2], Avg(w, r.f, k)), "average")
      \cup Cl(\A i \in 1..2: LET ua == Avg(w, r.u[i], n) IN \A a \in 1..3: RClose(r.uav[i][a], ua[a], tol, tol), "depth_average")
      \cup Cl(All6(n, LAMBDA k, b, a: Near(r.e3[k][b][a], r.e2[a])), "expand")
      \cup Cl(\A i \in 1..Len(r.sub): LET q == r.sub[i]
                                         k == IF q.b = "top" THEN n ELSE 1
                                     IN  Near3(q.v, IF q.f = "top" THEN r.f[k][2] ELSE IF q.f = "bottom" THEN r.f[k][1]
                                                    ELSE Comb("1/2", r.f[k][1], "1/2", r.f[k][2])), "extract")
      \cup Cl(\A i \in 1..2: All6(n, LAMBDA k, b, a:
                RClose(r.ud[i][k][b][a], RAdd(st.u2[3*i - 2], RAdd(RMul(st.u2[3*i - 1], x[a]), RMul(st.u2[3*i], y[a]))),
                       tol, tol)), "uv_dav_3d")
      \cup (IF FlatU(st) /\ c.open
            THEN LET t == TLCEval(Tot(st))
                     hx == GradX(x, y, hh)  hy == GradY(x, y, hh)
                     ua(a) == RAdd(t[1], RAdd(RMul(t[2], x[a]), RMul(t[3], y[a])))
                     va(a) == RAdd(t[4], RAdd(RMul(t[5], x[a]), RMul(t[6], y[a])))
                     wa(k, b, a) == RNeg(RAdd(RAdd(RMul(ua(a), hx), RMul(va(a), hy)),
                                              RMul(RAdd(t[2], t[6]), RAdd(z[IF b = 1 THEN k ELSE k + 1][a], hh[a]))))
                 IN  Cl(All6(n, LAMBDA k, b, a: RClose(r.w[k][b][a], wa(k, b, a), "1e-6", "1e-7")), "vertical_velocity")
            ELSE {})
      \cup Cl(All6(n, LAMBDA k, b, a: RClose(r.rho[k][b][a], Dens(c, r.salt[k][b][a], r.temp[k][b][a]), "1e-7", "1e-7")), "density")
      \cup (IF c.quad THEN {} ELSE
            Cl(\A i \in 1..Len(hd): \A a \in 1..3:
                  RClose(r.head[i][a], RNeg(RDiv(hd[i][a], Rho0)), "1e-6", "1e-9"), "baroclinic_head"))
      \cup (IF st.pgk = "flat"
            THEN LET q == RhoCo(c, st)
                     e == Eta(c, st, r.vs[1])
                 IN  Cl(\A i \in 1..2: All6(n, LAMBDA k, b, a:
                         RClose(r.pg[i][k][b][a], RMul(RDiv(G, Rho0), RMul(q[i + 1], RSub(e, z[IF b = 1 THEN k ELSE k + 1][a]))),
                                "1e-5", "1e-9")), "pressure_gradient")
            ELSE IF st.pgk = "uniform"
            THEN LET ee == [a \in 1..3 |-> Eta(c, st, r.vs[a])]
                     q == RMul(RDiv(G, Rho0), RhoConst(c, st))
                 IN  Cl(All6(n, LAMBDA k, b, a: RClose(r.pg[1][k][b][a], RMul(q, GradX(x, y, ee)), "1e-5", "1e-9")
                                             /\ RClose(r.pg[2][k][b][a], RMul(q, GradY(x, y, ee)), "1e-5", "1e-9")), "pressure_gradient")
            ELSE {})
      \cup (IF c.smag /\ FlatU(st)
            THEN Cl(\A i \in 1..Len(r.smag): RClose(r.smag[i], Smag(c, st), "1e-5", IF c.family = "dg-dg" THEN "1e-9" ELSE "1e-5"), "smagorinsky") ELSE {})
      \cup (IF c.turb THEN MixFails(c, st, r) ELSE {})

StateFails(c, st, e) ==
  Cl(\A v \in 1..NV(c): Len(e.z[v]) >= c.n + 1 /\ \A k \in 0..c.n: Near(e.z[v][k + 1], Zc(c, st, v, k)), "mesh")
  \cup (IF c.ale THEN Cl(\A v \in 1..NV(c): Near(e.ecg[v], st.eta[v]), "elev_cg") ELSE {})
  \cup Cl(\A v \in 1..NV(c): RClose(e.hs[v], HSize(c), "1e-4", "0"), "horizontal_size")
  \cup (IF c.open THEN {} ELSE Cl(RLe(RAbs(e.flux), RMul("1e-7", RMul(c.lx, c.ly))), "surface_flux"))
  \cup UNION {CellFails(c, st, e.cells[i]): i \in 1..Len(e.cells)}

WmFails(c, st, e) ==
  Cl(\A v \in 1..NV(c): \A k \in 0..c.n:
       LET zr == Zref(c, v, k)
           ws == RDiv(RSub(st.eta1[v], st.eta[v]), RMul(c.dt, st.c))
       IN  RClose(e.w[v][k + 1], RMul(ws, RDiv(RAdd(zr, c.h[v]), c.h[v])), "1e-6", "1e-9"), "mesh_velocity")

\* other profiles on the same mesh, without a new start of the model
MixingFails(c, st, e) ==
  UNION {LET r == e.cells[i] IN
         Cl(All6(c.n, LAMBDA k, b, a: RClose(r.rho[k][b][a], Dens(c, r.salt[k][b][a], r.temp[k][b][a]), "1e-7", "1e-7")), "density")
         \cup MixFails(c, st, r) : i \in 1..Len(e.cells)}

-----------------------------------------------------------------------------
\* the state of the specification: the state assigned last and what comes next
DInit(c) == [cfg |-> c, k |-> 1, at |-> "state"]
Stages(c) == <<"state">> \o (IF c.turb THEN <<"mixing">> ELSE <<>>) \o (IF c.ale THEN <<"wmesh">> ELSE <<>>)
Due(s) == s.at
DFails(s, e) ==
  IF s.k > Len(s.cfg.states) THEN {"extra_event"}
  ELSE IF e.ev /= s.at THEN {"order"}
  ELSE LET st == s.cfg.states[s.k]
       IN  CASE e.ev = "state" -> StateFails(s.cfg, st, e)
             [] e.ev = "mixing" -> MixingFails(s.cfg, st, e)
             [] e.ev = "wmesh" -> WmFails(s.cfg, st, e)
DApply(s, e) ==
  LET q == Stages(s.cfg)
      i == CHOOSE j \in 1..Len(q): q[j] = s.at
  IN  IF i < Len(q) THEN [s EXCEPT !.at = q[i + 1]] ELSE [s EXCEPT !.at = q[1], !.k = @ + 1]
DInvFails(s) == {}
DFinal(s) == Cl(s.k = Len(s.cfg.states) + 1, "incomplete")
====
