---- MODULE Fluxes ----
(***************************************************************************)
(* The discontinuous Galerkin scheme of the 2D model: numerical fluxes,    *)
(* stabilization, walls and open boundaries.                               *)
(*                                                                         *)
(* The state is a polynomial of degree p (0 or 1) per cell for the         *)
(* elevation, the velocity and the tracer.  The scheme is given cell by    *)
(* cell: the moments of a field (against the test functions 1, x - xc,     *)
(* y - yc) change by the integral of the volume terms plus the fluxes      *)
(* through the edges of the cell.  For p = 0 it is a finite volume scheme. *)
(*   interior edges  Riemann flux of the gravity wave, central advection   *)
(*                   of momentum with Lax-Friedrichs dissipation, upwind   *)
(*                   flux of tracers, interior penalty diffusion           *)
(*   walls           no flux, reflection of the wave, wall friction        *)
(*   open edges      the same Riemann fluxes with the external elevation,  *)
(*                   velocity, normal velocity, volume flux or tracer value*)
(*                                                                         *)
(* cfg: mode ("swe", "tracer"), p, lx, ly (rectangle), scheme ("FE", "CN", *)
(*      "CNS" semi-implicit, "BE"), theta, dt, tol, steps, nl,             *)
(*      b (bathymetry, affine <<a0, ax, ay>>)                              *)
(*   swe: lf (Lax-Friedrichs factor or "none"), visc ("none", "full",      *)
(*      "graddiv"), nu (affine), sipg, f (affine), lin, quad, smooth,      *)
(*      wind, mom, vol, pres (affine)                                      *)
(*   tracer: cons, k, lf, diff (affine), isdiff, sipg, src (affine)        *)
(*   sides: four records [kind: sequence of tags, elev, u, v, un, flux,    *)
(*      value, diff_flux, drag]                                            *)
(*   For p = 1: triangles, constant f, no quad and no wind.                *)
(* events: init [cells: vertices in cyclic order; eta, u, v, c:            *)
(*               polynomial <<a0, ax, ay>> per cell]                       *)
(*         step [eta, u, v, c after the step]                              *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

Cl(cond, n) == IF cond THEN {} ELSE {n}
grav == "9.81"
rho0 == "1000"
Q(x) == RRound(x, 24)
Half(x) == RMul("1/2", x)
Sqrt(x) == Q(RSqrt(x))
Quot(x, y) == Q(RDiv(x, y))
At(p, x) == RAdd(p[1], RAdd(RMul(p[2], x[1]), RMul(p[3], x[2])))
Dot2(a, b) == RAdd(RMul(a[1], b[1]), RMul(a[2], b[2]))
Add2(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
Sub2(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
Scale2(x, a) == <<RMul(x, a[1]), RMul(x, a[2])>>
Avg2(a, b) == Scale2("1/2", Add2(a, b))
Zero2 == <<"0", "0">>
Zero22 == <<Zero2, Zero2>>
SumVec(q) == <<RSum([i \in 1..Len(q) |-> q[i][1]]), RSum([i \in 1..Len(q) |-> q[i][2]])>>
Outer(a, b) == <<Scale2(a[1], b), Scale2(a[2], b)>>
Add22(a, b) == <<Add2(a[1], b[1]), Add2(a[2], b[2])>>
Scale22(x, a) == <<Scale2(x, a[1]), Scale2(x, a[2])>>
Transp(a) == <<<<a[1][1], a[2][1]>>, <<a[1][2], a[2][2]>>>>
\* row-wise product with a vector
Apply2(a, n) == <<Dot2(a[1], n), Dot2(a[2], n)>>
Has(sd, tag) == \E i \in 1..Len(sd.kind) : sd.kind[i] = tag
Open(sd) == \E t \in {"elev", "uv", "un", "flux"} : Has(sd, t)

(***************************************************************************)
(* Mesh: cells are polygons, edges are shared by at most two cells         *)
(***************************************************************************)
Nxt(poly, i) == poly[(i % Len(poly)) + 1]
Cross(a, b) == RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))
Area2(poly) == RSum([i \in 1..Len(poly) |-> Cross(poly[i], Nxt(poly, i))])
VertexIn(p, poly) == \E i \in 1..Len(poly) : poly[i] = p
SideOf(c, p, q) == CASE p[1] = "0" /\ q[1] = "0" -> 1
                     [] p[1] = R(c.lx) /\ q[1] = R(c.lx) -> 2
                     [] p[2] = "0" /\ q[2] = "0" -> 3
                     [] p[2] = R(c.ly) /\ q[2] = R(c.ly) -> 4
                     [] OTHER -> 0
\* quadrature points on an edge: midpoint, or the two Gauss points
gauss == Half(RSub("1", RDiv("1", RSqrt("3"))))
EdgePoints(c, p, q) ==
    IF c.p = 0 THEN <<Avg2(p, q)>>
    ELSE <<Add2(Scale2(gauss, p), Scale2(RSub("1", gauss), q)), Add2(Scale2(RSub("1", gauss), p), Scale2(gauss, q))>>
Mesh(c, cells) ==
    LET poly == TLCEval([k \in 1..Len(cells) |-> [i \in 1..Len(cells[k]) |-> <<R(cells[k][i][1]), R(cells[k][i][2])>>]]) IN
    TLCEval([k \in 1..Len(cells) |->
        LET a2 == Area2(poly[k])
            n == Len(poly[k])
            sum == SumVec(poly[k])
            centre == <<Quot(sum[1], n), Quot(sum[2], n)>>
        IN  [area |-> RAbs(Half(a2)),
             centre |-> centre,
             \* points and weight of the quadrature in the cell
             points |-> IF c.p = 0 THEN <<centre>> ELSE [i \in 1..n |-> Avg2(poly[k][i], Nxt(poly[k], i))],
             edges |-> [i \in 1..n |->
                LET p == poly[k][i]
                    q == Nxt(poly[k], i)
                    d == Sub2(q, p)
                    out == IF RLt("0", a2) THEN <<d[2], RNeg(d[1])>> ELSE <<RNeg(d[2]), d[1]>>
                    len == Sqrt(Dot2(d, d))
                    nb == {j \in 1..Len(cells) \ {k} : VertexIn(p, poly[j]) /\ VertexIn(q, poly[j])}
                IN  [len |-> len, normal |-> <<Quot(out[1], len), Quot(out[2], len)>>,
                     points |-> EdgePoints(c, p, q), nb |-> IF nb = {} THEN 0 ELSE CHOOSE j \in nb : TRUE,
                     side |-> IF nb = {} THEN SideOf(c, p, q) ELSE 0]]]])
MeshOK(m) == \A k \in 1..Len(m) : \A i \in 1..Len(m[k].edges) : m[k].edges[i].nb # 0 \/ m[k].edges[i].side # 0
\* test functions of a cell
Tests(c, cell) ==
    IF c.p = 0 THEN << <<"1", "0", "0">> >>
    ELSE << <<"1", "0", "0">>, <<RNeg(cell.centre[1]), "1", "0">>, <<RNeg(cell.centre[2]), "0", "1">> >>
Grad(p) == <<R(p[2]), R(p[3])>>
\* the state of a cell at a point
AtQ(p, pt) == Q(At(p, pt))
AtPoint(w, pt) == [eta |-> AtQ(w.eta, pt), uv |-> <<AtQ(w.u, pt), AtQ(w.v, pt)>>, c |-> AtQ(w.c, pt),
                   gu |-> <<Grad(w.u), Grad(w.v)>>, gc |-> Grad(w.c)]

Depth(c, eta, pt) == IF c.nl THEN RAdd(eta, At(c.b, pt)) ELSE At(c.b, pt)
SideLen(c, k) == IF k <= 2 THEN c.ly ELSE c.lx
\* penalty parameter of an edge of a cell (triangles if p = 1)
Sigma(c, cell, e) == RMul(RMul(c.sipg, IF c.p = 0 THEN "1" ELSE "3"), Quot(e.len, cell.area))

(***************************************************************************)
(* Shallow water fluxes at a point.  w, x: current values in the cell and  *)
(* beyond the edge; wo, xo: lagged values.  The result has the fluxes      *)
(* [eta, uv] multiplied by the test function and the tensor tau multiplied *)
(* by its gradient.                                                        *)
(***************************************************************************)
Sym(c, t) == IF c.visc = "full" THEN t ELSE Add22(t, Transp(t))
Stress(c, w, pt) == Scale22(At(c.nu, pt), Sym(c, w.gu))
InnerFlux(c, n, pt, w, wo, x, xo, sig) ==
    LET d == Half(RAdd(Depth(c, wo.eta, pt), Depth(c, xo.eta, pt)))
        du == Sub2(w.uv, x.uv)
        un == Dot2(Avg2(w.uv, x.uv), n)
        hu == RMul(d, RAdd(un, RMul(Sqrt(RDiv(grav, d)), RSub(w.eta, x.eta))))
        head == RAdd(Half(RAdd(w.eta, x.eta)), RMul(Sqrt(RDiv(d, grav)), Dot2(du, n)))
        press == Scale2(RMul(grav, head), n)
        uno == Dot2(Avg2(wo.uv, xo.uv), n)
        adv == IF ~c.nl THEN Zero2 ELSE Scale2(Dot2(wo.uv, n), Avg2(w.uv, x.uv))
        lax == IF ~c.nl \/ c.lf = "none" THEN Zero2 ELSE Scale2(RMul(Half(RAbs(uno)), c.lf), du)
        jmp == Scale22(At(c.nu, pt), Sym(c, Outer(du, n)))
        dif == IF c.visc = "none" THEN Zero2
               ELSE Sub2(Scale2(sig, Apply2(jmp, n)), Apply2(Scale22("1/2", Add22(Stress(c, w, pt), Stress(c, x, pt))), n))
    IN  [eta |-> hu, uv |-> SumVec(<<press, adv, lax, dif>>),
         tau |-> IF c.visc = "none" THEN Zero22 ELSE Scale22("-1/2", jmp)]
WallFlux(c, n, pt, w, wo) ==
    LET d == Depth(c, wo.eta, pt)
        un == Dot2(w.uv, n)
        press == Scale2(RMul(grav, RAdd(w.eta, RMul(Sqrt(RDiv(d, grav)), un))), n)
        lax == IF ~c.nl \/ c.lf = "none" THEN Zero2 ELSE Scale2(RMul(RMul(RAbs(Dot2(wo.uv, n)), c.lf), un), n)
    IN  [eta |-> "0", uv |-> Add2(press, lax), tau |-> Zero22]
\* external state seen from a cell with values w
Ext(c, sd, len, w, n, pt) ==
    LET eta == IF Has(sd, "elev") THEN R(sd.elev) ELSE w.eta
        uv == CASE Has(sd, "uv") -> <<R(sd.u), R(sd.v)>>
                [] Has(sd, "un") -> Scale2(sd.un, n)
                [] Has(sd, "flux") -> Scale2(Quot(sd.flux, RMul(Depth(c, eta, pt), len)), n)
                [] OTHER -> w.uv
    IN  [eta |-> eta, uv |-> uv]
OpenFlux(c, sd, len, n, pt, w, wo, sig) ==
    LET x == Ext(c, sd, len, w, n, pt)
        xo == Ext(c, sd, len, wo, n, pt)
        d == Depth(c, wo.eta, pt)
        dav == Half(RAdd(d, Depth(c, xo.eta, pt)))
        head == RAdd(Half(RAdd(w.eta, x.eta)), RMul(Sqrt(RDiv(d, grav)), Dot2(Sub2(w.uv, x.uv), n)))
        press == Scale2(RMul(grav, head), n)
        un == RAdd(Half(Dot2(Add2(w.uv, x.uv), n)), RMul(Sqrt(RDiv(grav, dav)), RSub(w.eta, x.eta)))
        etar == RAdd(Half(RAdd(wo.eta, xo.eta)), RMul(Sqrt(RDiv(dav, grav)), Dot2(Sub2(wo.uv, xo.uv), n)))
        hu == RMul(Depth(c, etar, pt), un)
        uno == RAdd(Half(Dot2(Add2(wo.uv, xo.uv), n)), RMul(Sqrt(RDiv(grav, d)), RSub(wo.eta, xo.eta)))
        adv == IF ~c.nl THEN Zero2 ELSE Scale2(uno, Avg2(w.uv, x.uv))
        delta == IF Has(sd, "un") THEN Scale2(RSub(Dot2(w.uv, n), sd.un), n) ELSE Sub2(w.uv, x.uv)
        \* viscous flux: only where the velocity is prescribed
        visc == c.visc # "none" /\ (Has(sd, "uv") \/ Has(sd, "un") \/ Has(sd, "flux"))
        jmp == Scale22(At(c.nu, pt), Sym(c, Outer(delta, n)))
        dif == IF ~visc THEN Zero2 ELSE Sub2(Scale2(sig, Apply2(jmp, n)), Apply2(Stress(c, w, pt), n))
    IN  [eta |-> hu, uv |-> SumVec(<<press, adv, dif>>), tau |-> IF ~visc THEN Zero22 ELSE Scale22("-1", jmp)]
WallDrag(sd, n, w, wo) ==
    IF ~Has(sd, "drag") THEN Zero2
    ELSE LET tang(uv) == Sub2(uv, Scale2(Dot2(uv, n), n))
         IN  Scale2(RMul(sd.drag, Sqrt(Dot2(tang(wo.uv), tang(wo.uv)))), tang(w.uv))
EdgeFlux(c, m, k, e, pt, x, o) ==
    LET w == AtPoint(x[k], pt)
        wo == AtPoint(o[k], pt)
        n == e.normal
    IN  IF e.nb # 0
        THEN InnerFlux(c, n, pt, w, wo, AtPoint(x[e.nb], pt), AtPoint(o[e.nb], pt), RMax(Sigma(c, m[k], e), Sigma(c, m[e.nb], e)))
        ELSE LET sd == c.sides[e.side]
                 a == IF Open(sd) THEN OpenFlux(c, sd, SideLen(c, e.side), n, pt, w, wo, Sigma(c, m[k], e))
                      ELSE WallFlux(c, n, pt, w, wo)
             IN  [a EXCEPT !.uv = Add2(@, WallDrag(sd, n, w, wo))]
\* volume terms at a point of the cell, for a test function with value ph and gradient gp: rates [eta, u, v]
Volume(c, w, wo, pt, ph, gp) ==
    LET d == Depth(c, wo.eta, pt)
        f == At(c.f, pt)
        drag == IF c.quad = "0" THEN R(c.lin)
                ELSE RAdd(c.lin, Quot(RMul(c.quad, Sqrt(RAdd(Dot2(wo.uv, wo.uv), RMul(c.smooth, c.smooth)))), d))
        wind(i) == IF c.wind[i] = "0" THEN "0" ELSE Quot(c.wind[i], RMul(d, rho0))
        adv == IF ~c.nl THEN "0" ELSE RAdd(Dot2(wo.uv, gp), RMul(ph, RAdd(wo.gu[1][1], wo.gu[2][2])))
        st == IF c.visc = "none" THEN Zero22 ELSE Stress(c, w, pt)
        src(i) == RSum(<<At(c.mom[i], pt), wind(i), RNeg(RDiv(c.pres[i + 1], rho0)), RNeg(RMul(drag, w.uv[i]))>>)
        cor == <<RMul(f, w.uv[2]), RNeg(RMul(f, w.uv[1]))>>
        mom(i) == RSum(<<RMul(RMul(grav, w.eta), gp[i]), RMul(adv, w.uv[i]), RMul(ph, RAdd(src(i), cor[i])), RNeg(Dot2(st[i], gp))>>)
    IN  <<RAdd(RMul(d, Dot2(w.uv, gp)), RMul(ph, At(c.vol, pt))), mom(1), mom(2)>>

(***************************************************************************)
(* Tracer fluxes at a point                                                *)
(***************************************************************************)
Up(un, inside, outside) == IF RLt("0", un) THEN R(inside) ELSE IF RLt(un, "0") THEN R(outside) ELSE Half(RAdd(inside, outside))
TExt(c, sd, len, w, n, pt) ==
    LET eta == IF Has(sd, "elev") THEN R(sd.elev) ELSE w.eta
        uv == CASE Has(sd, "uv") -> <<R(sd.u), R(sd.v)>>
                [] Has(sd, "flux") -> Scale2(Quot(sd.flux, RMul(Depth(c, eta, pt), len)), n)
                [] Has(sd, "un") -> Scale2(sd.un, n)
                [] OTHER -> w.uv
    IN  [uv |-> Scale2(c.k, uv), c |-> IF Has(sd, "value") THEN R(sd.value) ELSE w.c]
\* [flux, multiplied by the test function; tau, multiplied by its gradient]
TracerInner(c, n, pt, w, x, sig) ==
    LET uk == Dot2(Scale2(c.k, w.uv), n)
        ul == Dot2(Scale2(c.k, x.uv), n)
        un == Half(RAdd(uk, ul))
        kap == At(c.diff, pt)
        dc == RSub(w.c, x.c)
        adv == IF c.cons THEN Up(un, RMul(w.c, uk), RMul(x.c, ul)) ELSE RMul(Up(un, w.c, x.c), uk)
        lax == IF c.lf = "none" THEN "0" ELSE RMul(RMul(Half(RAbs(un)), c.lf), dc)
        dif == IF ~c.isdiff THEN "0" ELSE RSub(RMul(RMul(sig, kap), dc), RMul(kap, Dot2(Avg2(w.gc, x.gc), n)))
    IN  [flux |-> RSum(<<adv, lax, dif>>), tau |-> IF ~c.isdiff THEN Zero2 ELSE Scale2(RMul(RMul("-1/2", kap), dc), n)]
TracerBoundary(c, sd, len, n, pt, w) ==
    LET uk == Dot2(Scale2(c.k, w.uv), n)
        x == TExt(c, sd, len, w, n, pt)
        ux == Dot2(x.uv, n)
        un == Half(RAdd(uk, ux))
        adv == IF sd.kind = <<>> THEN RMul(w.c, uk)
               ELSE IF c.cons THEN Up(un, RMul(w.c, uk), RMul(x.c, ux))
               ELSE RMul(Up(un, w.c, x.c), un)
        gn == RMul(At(c.diff, pt), Dot2(w.gc, n))
        dif == CASE ~c.isdiff \/ sd.kind = <<>> -> "0"
                 [] Has(sd, "diff_flux") -> R(sd.diff_flux)
                 [] Has(sd, "value") -> Up(un, gn, "0")
                 [] OTHER -> gn
    IN  [flux |-> RSub(adv, dif), tau |-> Zero2]
TracerFlux(c, m, k, e, pt, x) ==
    LET w == AtPoint(x[k], pt) IN
    IF e.nb # 0 THEN TracerInner(c, e.normal, pt, w, AtPoint(x[e.nb], pt), RMax(Sigma(c, m[k], e), Sigma(c, m[e.nb], e)))
    ELSE TracerBoundary(c, c.sides[e.side], SideLen(c, e.side), e.normal, pt, w)
TracerVolume(c, w, pt, ph, gp) ==
    LET u == Scale2(c.k, w.uv)
        comp == IF c.cons THEN "0" ELSE RMul(RMul(c.k, ph), RAdd(w.gu[1][1], w.gu[2][2]))
        dif == IF ~c.isdiff THEN "0" ELSE RMul(At(c.diff, pt), Dot2(gp, w.gc))
        src == RMul(At(c.src, pt), IF c.cons THEN Depth(c, w.eta, pt) ELSE "1")
    IN  RSum(<<RMul(RAdd(Dot2(u, gp), comp), w.c), RNeg(dif), RMul(ph, src)>>)

(***************************************************************************)
(* Moments of the tendency of cell k: one row per test function            *)
(***************************************************************************)
SweMoments(c, m, k, x, o) ==
    LET cell == m[k]
        ne == Len(cell.edges)
        np == IF c.p = 0 THEN 1 ELSE 2
        fl == TLCEval([i \in 1..ne |-> TLCEval([q \in 1..np |-> EdgeFlux(c, m, k, cell.edges[i], cell.edges[i].points[q], x, o)])])
        tests == Tests(c, cell)
        vw == Quot(cell.area, Len(cell.points))
        row(ph) ==
            LET gp == Grad(ph)
                edge(i, q) ==
                    LET f == fl[i][q]
                        a == At(ph, cell.edges[i].points[q])
                        t == Apply2(f.tau, gp)
                        wt == RDiv(cell.edges[i].len, np)
                    IN  <<RMul(RMul(a, f.eta), wt), RMul(RAdd(RMul(a, f.uv[1]), t[1]), wt), RMul(RAdd(RMul(a, f.uv[2]), t[2]), wt)>>
                es == TLCEval([i \in 1..ne |-> TLCEval([q \in 1..np |-> edge(i, q)])])
                vs == TLCEval([j \in 1..Len(cell.points) |->
                        Volume(c, AtPoint(x[k], cell.points[j]), AtPoint(o[k], cell.points[j]), cell.points[j], At(ph, cell.points[j]), gp)])
            IN  TLCEval([j \in 1..3 |-> RSub(RMul(vw, RSum([a \in 1..Len(vs) |-> vs[a][j]])),
                                     RSum([i \in 1..ne |-> RSum([q \in 1..np |-> es[i][q][j]])]))])
    IN  TLCEval([t \in 1..Len(tests) |-> row(tests[t])])
TracerMoments(c, m, k, x) ==
    LET cell == m[k]
        ne == Len(cell.edges)
        np == IF c.p = 0 THEN 1 ELSE 2
        fl == TLCEval([i \in 1..ne |-> TLCEval([q \in 1..np |-> TracerFlux(c, m, k, cell.edges[i], cell.edges[i].points[q], x)])])
        tests == Tests(c, cell)
        vw == Quot(cell.area, Len(cell.points))
        row(ph) ==
            LET gp == Grad(ph)
                edge(i, q) ==
                    LET f == fl[i][q] IN
                    RMul(RDiv(cell.edges[i].len, np), RAdd(RMul(At(ph, cell.edges[i].points[q]), f.flux), Dot2(f.tau, gp)))
                vol(j) == TracerVolume(c, AtPoint(x[k], cell.points[j]), cell.points[j], At(ph, cell.points[j]), gp)
            IN  <<RSub(RMul(vw, RSum([j \in 1..Len(cell.points) |-> vol(j)])),
                       RSum([i \in 1..ne |-> RSum([q \in 1..np |-> edge(i, q)])]))>>
    IN  TLCEval([t \in 1..Len(tests) |-> row(tests[t])])
Moments(c, m, k, x, o) == IF c.mode = "swe" THEN SweMoments(c, m, k, x, o) ELSE TracerMoments(c, m, k, x)
FieldsOf(c, w) == IF c.mode = "swe" THEN <<w.eta, w.u, w.v>> ELSE <<w.c>>
\* moment of a field against a test function
Moment(cell, p, ph) ==
    RMul(Quot(cell.area, Len(cell.points)), RSum([j \in 1..Len(cell.points) |-> RMul(At(p, cell.points[j]), At(ph, cell.points[j]))]))
Names(c) == IF c.mode = "swe" THEN <<"eta", "u", "v">> ELSE <<"tracer">>
Where(c, cell) ==
    LET b == {cell.edges[i].side : i \in 1..Len(cell.edges)} \ {0}
    IN  IF b = {} THEN "_inside"
        ELSE IF \E i \in b : IF c.mode = "swe" THEN Open(c.sides[i]) ELSE c.sides[i].kind # <<>> THEN "_open" ELSE "_wall"

(***************************************************************************)
(* Time step: x0, x1 are the states before and after                       *)
(***************************************************************************)
Theta(c) == CASE c.scheme = "FE" -> "0" [] c.scheme = "BE" -> "1" [] OTHER -> R(c.theta)
Imbalance(c, m, k, x0, x1) ==
    LET th == Theta(c)
        r0 == IF th = "1" THEN <<>> ELSE Moments(c, m, k, x0, x0)
        r1 == IF th = "0" THEN <<>> ELSE Moments(c, m, k, x1, IF c.scheme = "CNS" THEN x0 ELSE x1)
        tests == Tests(c, m[k])
        rate(t, j) == RAdd(IF th = "0" THEN "0" ELSE RMul(th, r1[t][j]), IF th = "1" THEN "0" ELSE RMul(RSub("1", th), r0[t][j]))
        f0 == FieldsOf(c, x0[k])
        f1 == FieldsOf(c, x1[k])
    IN  [t \in 1..Len(tests) |-> TLCEval([j \in 1..Len(f0) |->
            RSub(RSub(Moment(m[k], f1[j], tests[t]), Moment(m[k], f0[j], tests[t])), RMul(c.dt, rate(t, j)))])]
State(e) == [k \in 1..Len(e.eta) |-> [eta |-> e.eta[k], u |-> e.u[k], v |-> e.v[k], c |-> e.c[k]]]
XInit(c) == [c |-> c, on |-> FALSE, m |-> <<>>, x |-> <<>>, n |-> 0]
XFails(s, e) ==
    LET c == s.c IN
    CASE e.ev = "init" -> Cl(~s.on /\ MeshOK(Mesh(c, e.cells)), "bad_scenario")
      [] e.ev = "step" /\ s.on ->
           LET x1 == State(e) IN
           UNION {
               LET im == TLCEval(Imbalance(c, s.m, k, s.x, x1))
                   tol == RMul(RMul(c.tol, s.m[k].area), c.scale)
               IN  UNION {Cl(\A t \in 1..Len(im) : RLe(RAbs(im[t][j]), tol), Names(c)[j] \o Where(c, s.m[k])) : j \in 1..Len(im[1])}
               : k \in 1..Len(s.m)}
      [] OTHER -> {"unknown_event"}
XApply(s, e) == IF e.ev = "init" THEN [s EXCEPT !.on = TRUE, !.m = Mesh(s.c, e.cells), !.x = State(e)]
                ELSE [s EXCEPT !.x = State(e), !.n = @ + 1]
XInvFails(s) == {}
XFinal(s) == Cl(s.on /\ s.n = s.c.steps, "run_incomplete")
====
