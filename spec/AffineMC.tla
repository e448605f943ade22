---- MODULE AffineMC ----
(* Consistency of the specification Affine: the tendencies satisfy the identities of the equations
   (divergence theorem, superposition, product rule, Galilean and rotational symmetry), and events with
   a missing, doubled or reversed term are rejected. *)
EXTENDS Affine
CONSTANTS Deep
VARIABLES c, n
V3 == {<<"0", "0", "0">>, <<"1", "2", "-1">>, <<"-2", "1/3", "1/2">>} \cup (IF Deep THEN {<<"0", "-1", "3">>, <<"5", "0", "0">>} ELSE {})
H3 == {<<"20", "0", "0">>, <<"20", "1", "-1/2">>}
Geoms == {<<"0", "0", "4", "0", "0", "3">>, <<"1", "2", "4", "1", "-1", "3">>}
SweBase == [mode |-> "swe", dt |-> "1/10", tol |-> "1e-9", scale |-> "1", geom |-> <<"0", "0", "4", "0", "0", "3">>,
            eta |-> Zero3, u |-> Zero3, v |-> Zero3, b |-> <<"20", "0", "0">>, nl |-> TRUE, visc |-> "none", nu |-> Zero3, nuk |-> "0",
            f |-> Zero3, lin |-> "0", mom |-> <<Zero3, Zero3>>, wind |-> <<"0", "0">>, vol |-> Zero3,
            pres |-> <<"0", "0", "0", "0", "0", "0">>, sides |-> <<"uv", "uv", "uv", "uv">>]
Swe == {[SweBase EXCEPT !.eta = e, !.u = u, !.v = v, !.b = b, !.nl = nl, !.visc = vi, !.geom = g, !.f = f,
                        !.nu = IF vi = "graddepth" THEN PScale("1/7", Depth([nl |-> nl, eta |-> e, b |-> b])) ELSE <<"3", "1/5", "1/7">>,
                        !.nuk = "1/7"] :
          e \in V3, u \in V3, v \in V3, b \in H3, nl \in BOOLEAN, vi \in {"none", "full", "graddiv", "graddepth"}, g \in Geoms,
          f \in {<<"1/10", "0", "0">>}}
TrBase == [mode |-> "tracer", dt |-> "1/10", tol |-> "1e-9", scale |-> "1", geom |-> <<"0", "0", "4", "0", "0", "3">>, nl |-> TRUE,
           u |-> Zero3, v |-> Zero3, eta |-> Zero3, b |-> <<"20", "0", "0">>, k |-> <<"1", "0", "0">>, cons |-> FALSE, c |-> Zero3,
           diff |-> Zero3, src |-> Zero3, sides |-> <<"value", "value", "value", "value">>]
Tracer == {[TrBase EXCEPT !.u = u, !.v = v, !.c = x, !.cons = cons, !.diff = d, !.geom = g, !.k = k, !.src = s] :
             u \in V3, v \in V3, x \in V3, cons \in BOOLEAN, d \in {Zero3, <<"3", "1/5", "1/7">>}, g \in Geoms,
             k \in {<<"1", "0", "0">>, <<"3/4", "0", "0">>}, s \in {Zero3, <<"1/3", "0", "0">>}}
Init == c \in Swe \cup Tracer /\ n = 0
Next == n < 1 /\ n' = n + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, n>>
State == [c |-> c, n |-> 0]
Good == [ev |-> "step", f |-> Expected(c), res |-> [i \in 1..Len(Expected(c)) |-> "0"]]
Accepted == AFails(State, Good) = {}
\* every coefficient matters
Rejected ==
    /\ \A i \in 1..Len(Good.f), j \in 1..3 : AFails(State, [Good EXCEPT !.f[i][j] = RAdd(@, "1/1000")]) # {}
    /\ \A i \in 1..Len(Good.f) : AFails(State, [Good EXCEPT !.res[i] = "1e-6"]) # {}
\* divergence theorem: integral of the tendency = - integral of the flux through the boundary.
\* affine on the parallelogram: area * value at the centre; quadratic on a side: Simpson's rule
Area(g) == RAbs(RSub(RMul(g[3], g[6]), RMul(g[4], g[5])))
Centre(g) == Corner(g, "1/2", "1/2")
Mid(g, k) == LET e == Ends(g, k) IN <<RMul("1/2", RAdd(e[1][1], e[2][1])), RMul("1/2", RAdd(e[1][2], e[2][2]))>>
\* flux of q (u, v) - d grad through side k
Flux(x, q, u, v, d, k) ==
    LET nn == Normal(x.geom, k)
        at(pt) == RSub(RMul(PVal(q, pt), RAdd(RMul(PVal(u, pt), nn[1]), RMul(PVal(v, pt), nn[2]))),
                       RMul(PVal(d, pt), RAdd(RMul(DX(q), nn[1]), RMul(DY(q), nn[2]))))
    IN  RDiv(RSum(<<at(Ends(x.geom, k)[1]), RMul("4", at(Mid(x.geom, k))), at(Ends(x.geom, k)[2])>>), "6")
NetFlux(x, q, u, v, d) == RSum([k \in 1..4 |-> Flux(x, q, u, v, d, k)])
Total(x, p) == RMul(Area(x.geom), PVal(p, Centre(x.geom)))
VolumeTheorem == c.mode = "swe" => Total(c, EtaT(c)) = RNeg(NetFlux(c, Depth(c), c.u, c.v, Zero3))
MassTheorem == (c.mode = "tracer" /\ c.cons) =>
    Total(c, PSub(TracerT(c), PMul(c.src, Depth(c)))) = RNeg(NetFlux(c, c.c, TrFlow(c, c.u), TrFlow(c, c.v), c.diff))
\* product rule: conservative - non-conservative = c div(u)
ProductRule == (c.mode = "tracer" /\ c.src = Zero3) =>
    PSub(TracerT([c EXCEPT !.cons = TRUE]), TracerT([c EXCEPT !.cons = FALSE])) = PScale(RMul(c.k[1], RNeg(Div(c))), c.c)
\* the tracer tendency is linear in the tracer, uniform tracers stay uniform
Uniform == (c.mode = "tracer" /\ ~c.cons /\ c.src = Zero3) => TracerT([c EXCEPT !.c = <<"3", "0", "0">>]) = Zero3
Superpose == (c.mode = "tracer" /\ c.src = Zero3) =>
    TracerT([c EXCEPT !.c = PAdd(PScale("2", @), <<"1", "1", "1">>)]) =
        PAdd(PScale("2", TracerT(c)), TracerT([c EXCEPT !.c = <<"1", "1", "1">>]))
\* symmetry under exchange of the axes (mirrors the Coriolis parameter)
SwapP(p) == <<p[1], p[3], p[2]>>
SwapC(x) == [x EXCEPT !.u = SwapP(x.v), !.v = SwapP(x.u), !.eta = SwapP(@), !.b = SwapP(@), !.nu = SwapP(@), !.f = PNeg(SwapP(@))]
Mirror == c.mode = "swe" => UT(SwapC(c)) = SwapP(VT(c)) /\ VT(SwapC(c)) = SwapP(UT(c)) /\ EtaT(SwapC(c)) = SwapP(EtaT(c))
\* the flow in a closed basin conserves volume
Walls == c.mode = "swe" =>
    LET x == [c EXCEPT !.sides = <<"closed", "closed", "closed", "closed">>] IN
    SweConsistent(x) => Total(x, EtaT(x)) = "0"
====
