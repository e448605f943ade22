---- MODULE FluxesMC ----
(* Consistency of the specification Fluxes.

   - fluxes are conservative: what leaves a cell enters its neighbour;
   - water at rest and uniform tracers have no tendency; walls let nothing through;
   - on continuous affine fields the moments are those of the tendencies of module Affine
     (the scheme is consistent with the equations);
   - penalty, Lax-Friedrichs and upwind terms dissipate;
   - events with a perturbed cell value are rejected. *)
EXTENDS Fluxes
CONSTANTS Deep
A == INSTANCE Affine
VARIABLES c, x, n, mesh
Z == <<"0", "0", "0">>
Sd(k) == [kind |-> k, elev |-> "1/3", u |-> "1/2", v |-> "-1/5", un |-> "1/4", flux |-> "5", value |-> "2", diff_flux |-> "1", drag |-> "1/2"]
Base == [mode |-> "swe", p |-> 0, lx |-> "2", ly |-> "1", scheme |-> "FE", theta |-> "1/2", dt |-> "1/50", tol |-> "1e-9", scale |-> "1", steps |-> 1,
         nl |-> TRUE, b |-> <<"9", "0", "0">>, lf |-> "3/4", visc |-> "none", nu |-> <<"2", "0", "0">>, sipg |-> "1", f |-> Z, lin |-> "0",
         quad |-> "0", smooth |-> "0", wind |-> <<"0", "0">>, mom |-> <<Z, Z>>, vol |-> Z, pres |-> Z, sides |-> [i \in 1..4 |-> Sd(<<>>)],
         cons |-> FALSE, k |-> "3/4", diff |-> <<"2", "0", "0">>, isdiff |-> FALSE, src |-> Z]
Cells(p) == IF p = 0 THEN << <<<<"0", "0">>, <<"1", "0">>, <<"1", "1">>, <<"0", "1">>>>, <<<<"1", "0">>, <<"2", "0">>, <<"2", "1">>, <<"1", "1">>>> >>
            ELSE << <<<<"0", "0">>, <<"2", "0">>, <<"2", "1">>>>, <<<<"0", "0">>, <<"2", "1">>, <<"0", "1">>>> >>
Const(a) == <<a, "0", "0">>
W(p, e, u, v, y) == [eta |-> IF p = 0 THEN Const(e[1]) ELSE e, u |-> IF p = 0 THEN Const(u[1]) ELSE u, v |-> IF p = 0 THEN Const(v[1]) ELSE v,
                     c |-> IF p = 0 THEN Const(y[1]) ELSE y]
P1 == <<"1/2", "0", "0">>
P2 == <<"-1/3", "1/2", "1">>
P3 == <<"0", "-1", "1/4">>
States(p) == {W(p, P2, P3, P1, P2)} \cup (IF Deep THEN {W(p, P1, P2, P2, P3), W(p, P3, P1, P3, P1), W(p, P2, P1, P3, P3)} ELSE {W(p, P1, P2, P2, P3)})
Cfgs == {[Base EXCEPT !.p = p, !.nl = nl, !.visc = vi, !.lf = lf, !.mode = md, !.cons = co, !.isdiff = di] :
            p \in {0, 1}, nl \in BOOLEAN, vi \in {"none", "full", "graddiv"}, lf \in {"none", "3/4"}, md \in {"swe"}, co \in {FALSE}, di \in {FALSE}}
        \cup {[Base EXCEPT !.p = p, !.lf = lf, !.mode = "tracer", !.cons = co, !.isdiff = di] :
            p \in {0, 1}, lf \in {"none", "3/4"}, co \in BOOLEAN, di \in BOOLEAN}
Init == /\ c \in Cfgs
        /\ \E s1 \in States(c.p), s2 \in States(c.p) : x = <<s1, s2>>
        /\ mesh = Mesh(c, Cells(c.p))
        /\ n = 0
Next == n < 1 /\ n' = n + 1 /\ UNCHANGED <<c, x, mesh>>
Spec == Init /\ [][Next]_<<c, x, n, mesh>>
M == mesh
Mom(k, st) == Moments(c, M, k, st, st)
Near(a, b) == RClose(a, b, "1e-12", "1e-12")
\* --- conservation
Inner == CHOOSE i \in 1..Len(M[1].edges) : M[1].edges[i].nb = 2
Antisymmetric ==
    LET e == M[1].edges[Inner]
        pt == e.points[1]
        w == AtPoint(x[1], pt)
        y == AtPoint(x[2], pt)
        m1 == Scale2("-1", e.normal)
    IN  IF c.mode = "swe"
        THEN LET f == InnerFlux(c, e.normal, pt, w, w, y, y, "3")
                 g == InnerFlux(c, m1, pt, y, y, w, w, "3")
             IN  Near(f.eta, RNeg(g.eta)) /\ (~c.nl => Near(f.uv[1], RNeg(g.uv[1])) /\ Near(f.uv[2], RNeg(g.uv[2])))
        ELSE c.cons => LET f == TracerInner(c, e.normal, pt, w, y, "3")
                           g == TracerInner(c, m1, pt, y, w, "3")
                       IN  Near(f.flux, RNeg(g.flux))
\* walls are closed: the volume stays
WallsClosed == c.mode = "swe" => Near(RAdd(Mom(1, x)[1][1], Mom(2, x)[1][1]), "0")
\* --- equilibria
Rest == LET st == <<W(c.p, Const("1/2"), Z, Z, Z), W(c.p, Const("1/2"), Z, Z, Z)>> IN
        c.mode = "swe" => \A k \in 1..2, t \in 1..Len(Tests(c, M[1])), j \in 1..3 : Near(Mom(k, st)[t][j], "0")
UniformTracer == LET st == <<[x[1] EXCEPT !.c = Const("3")], [x[2] EXCEPT !.c = Const("3")]>> IN
                 (c.mode = "tracer" /\ ~c.cons) => \A k \in 1..2, t \in 1..Len(Tests(c, M[1])) : Near(Mom(k, st)[t][1], "0")
\* the moments with consistent boundary data: every edge of the cell is given the inner flux with a copy of the cell beyond
MomentsIn(cc, k, st) ==
    LET ghost == [i \in 1..Len(M[k].edges) |-> [M[k].edges[i] EXCEPT !.nb = IF k = 1 THEN 2 ELSE 1]]
        mm == [M EXCEPT ![k].edges = ghost]
    IN  Moments(cc, mm, k, st, st)
\* --- consistency with the equations
Affinely ==
    LET st == <<x[1], x[1]>>
        ac == [mode |-> c.mode, eta |-> x[1].eta, u |-> x[1].u, v |-> x[1].v, b |-> c.b, nl |-> c.nl, visc |-> c.visc, nu |-> c.nu, nuk |-> "0",
               f |-> c.f, lin |-> c.lin, mom |-> c.mom, wind |-> c.wind, vol |-> c.vol, pres |-> <<"0", "0", "0", "0", "0", "0">>,
               k |-> <<c.k, "0", "0">>, cons |-> c.cons, c |-> x[1].c, diff |-> IF c.isdiff THEN c.diff ELSE Z, src |-> c.src]
        want == IF c.mode = "swe" THEN <<A!EtaT(ac), A!UT(ac), A!VT(ac)>> ELSE <<A!TracerT(ac)>>
    IN  (c.p = 1 /\ x[1] = x[2]) =>
        \A k \in 1..2 : LET got == MomentsIn(c, k, st) IN
        \A t \in 1..3, j \in 1..Len(want) : Near(got[t][j], Moment(M[k], want[j], Tests(c, M[k])[t]))
\* --- dissipation
Dissipative ==
    LET e == M[1].edges[Inner]
        pt == e.points[1]
        w == AtPoint(x[1], pt)
        y == AtPoint(x[2], pt)
        \* part of the flux beyond the central one does not increase the jump
        flat(s) == [s EXCEPT !.gu = Zero22, !.gc = Zero2]
    IN  IF c.mode = "tracer"
        THEN c.cons \/ LET d == RSub(w.c, y.c)
                           un == RMul(c.k, Half(Dot2(Add2(w.uv, y.uv), e.normal)))
                           w2 == [flat(w) EXCEPT !.uv = Avg2(w.uv, y.uv)]
                           y2 == [flat(y) EXCEPT !.uv = Avg2(w.uv, y.uv)]
                       IN  RLe("0", RMul(d, RSub(TracerInner(c, e.normal, pt, w2, y2, "3").flux, RMul(un, Half(RAdd(w.c, y.c))))))
        ELSE LET f(v) == InnerFlux([c EXCEPT !.visc = v], e.normal, pt, flat(w), flat(w), flat(y), flat(y), "3")
                 d == Sub2(w.uv, y.uv)
             IN  RLe("0", Dot2(d, Sub2(f(c.visc).uv, f("none").uv)))
\* --- acceptance of a step (p = 0, where the mass matrix is diagonal)
Good == LET nx == [k \in 1..2 |-> LET mo == Mom(k, x)[1] IN
                  IF c.mode = "swe"
                  THEN [x[k] EXCEPT !.eta = Const(RAdd(@[1], RMul(c.dt, RDiv(mo[1], M[k].area)))), !.u = Const(RAdd(@[1], RMul(c.dt, RDiv(mo[2], M[k].area)))),
                                    !.v = Const(RAdd(@[1], RMul(c.dt, RDiv(mo[3], M[k].area))))]
                  ELSE [x[k] EXCEPT !.c = Const(RAdd(@[1], RMul(c.dt, RDiv(mo[1], M[k].area))))]]
        IN  [ev |-> "step", eta |-> <<nx[1].eta, nx[2].eta>>, u |-> <<nx[1].u, nx[2].u>>, v |-> <<nx[1].v, nx[2].v>>, c |-> <<nx[1].c, nx[2].c>>]
St == [c |-> c, on |-> TRUE, m |-> M, x |-> x, n |-> 0]
Accepted == c.p = 0 => XFails(St, Good) = {}
Rejected == c.p = 0 => \A k \in 1..2 :
    IF c.mode = "swe" THEN XFails(St, [Good EXCEPT !.eta[k][1] = RAdd(@, "1e-6")]) # {} /\ XFails(St, [Good EXCEPT !.u[k][1] = RAdd(@, "1e-6")]) # {}
    ELSE XFails(St, [Good EXCEPT !.c[k][1] = RAdd(@, "1e-6")]) # {}
====
