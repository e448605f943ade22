---- MODULE SedimentMC ----
(* Consistency of the specification Sediment: closure relations (threshold of motion, isotropy, equilibrium),
   conservation of suspended plus bed mass by the schemes, acceptance of exact events, rejection of disturbed ones. *)
EXTENDS Sediment
CONSTANTS Deep
VARIABLES s, n
P0 == [size |-> "2.5e-4", zref |-> "1e-3", rhos |-> "2650", visc |-> "1e-6", beta |-> "1.3", surb |-> "2/3", asec |-> "3/4",
       por |-> "0.4", morfac |-> "1", angle |-> "32"]
Params == {P0, [P0 EXCEPT !.size = "8e-5", !.morfac = "10"], [P0 EXCEPT !.size = "2e-3", !.por = "1/4", !.rhos = "2000"]}
          \cup (IF Deep THEN {[P0 EXCEPT !.size = "6e-4", !.visc = "2e-6"], [P0 EXCEPT !.size = "2e-4", !.zref = "1/100"]} ELSE {})
X(u, v, h, bx, by) == [u |-> u, v |-> v, h |-> h, bx |-> bx, by |-> by]
Us == {<<"0", "0">>, <<"1/100", "0">>, <<"1/2", "-1/3">>, <<"1", "2">>} \cup (IF Deep THEN {<<"-3", "1/7">>, <<"1/5", "1/5">>} ELSE {})
Hs == {"1/2", "4"} \cup (IF Deep THEN {"1/20", "30"} ELSE {})
Schemes == {"ForwardEuler", "BackwardEuler", "CrankNicolson", "SSPRK33", "DIRK22"}
Base(p, w, h, cons, sch) ==
    [mode |-> "run", p |-> p, angle |-> FALSE, mag |-> FALSE, secc |-> FALSE, adv |-> TRUE, susp |-> TRUE, bed |-> TRUE, exner |-> TRUE, cons |-> cons,
     tronly |-> TRUE, sscheme |-> sch, escheme |-> sch, theta |-> "3/5", dt |-> "1/4000", states |-> <<X(w[1], w[2], h, "0", "0")>>,
     start |-> [u |-> w[1], v |-> w[2], b |-> h, eta |-> "0", s |-> "1/100"], lx |-> "10", ly |-> "4", sides |-> <<"none", "elev", "drag", "un0">>]
Configs == {Base(p, w, h, cons, sch) : p \in Params, w \in Us, h \in Hs, cons \in BOOLEAN,
                                       sch \in (IF Deep THEN Schemes ELSE {"ForwardEuler", "CrankNicolson", "SSPRK33"})}
\* the event of an exact step
Event(st) ==
    LET c == st.c
        y == st.y
        x == X(y.u, y.v, RAdd(y.b, y.eta), "0", "0")
        e0 == Erosion(c.p, x)
        cd == Deposition(c.p, x)
        s1 == SedStep(c, e0, cd, y.s, x.h)
    IN  [ev |-> "step", u |-> y.u, v |-> y.v, eta |-> y.eta, s |-> s1, b |-> RRound(RAdd(y.b, BedChange(c, e0, cd, y.s, s1, x.h)), 30), var |-> "0"]
StartState(c) == [XInit(c) EXCEPT !.k = 1, !.y = [u |-> c.start.u, v |-> c.start.v, eta |-> "0", s |-> c.start.s, b |-> c.start.b]]
Init == \E c \in Configs : s = StartState(c) /\ n = 0
Next == n < 2 /\ n' = n + 1 /\ s' = XApply(s, Event(s))
Spec == Init /\ [][Next]_<<s, n>>
XX == X(s.y.u, s.y.v, RAdd(s.y.b, s.y.eta), "0", "0")
Accepted == XFails(s, Event(s)) = {}
Rel1(a) == RMul(a, "1.001")
Scale == RMul(RMul(s.c.dt, RMul(Fac(s.c.p), Deposition(s.c.p, XX))), RMax(RAbs(s.y.s), RAbs(Event(s).s)))
Rejected ==
    LET e == Event(s) IN
    /\ XFails(s, [e EXCEPT !.var = "1e-3"]) # {}
    /\ XFails(s, [e EXCEPT !.s = RAdd(@, RMul("1e-4", RAdd(RAbs(s.y.s), RAbs(@))))]) # {}
    /\ XFails(s, [e EXCEPT !.b = RAdd(@, RAdd("1/10", RMul(Scale, "1e-3")))]) # {}
    /\ XFails(s, [e EXCEPT !.u = RAdd(@, "1/10")]) # {}
\* the exact values of the closure are accepted, disturbed ones are not
ModelEvent ==
    LET c == s.c
        p == c.p
        x == c.states[1]
        q == Bedload(c, x)
    IN  [ev |-> "model", var |-> "0", ws |-> Settling(p), tau |-> Stress(p, x), dep |-> Deposition(p, x), ero |-> Erosion(p, x),
         eq |-> Equilibrium(p, x), fac |-> VelFactor(p, x), qx |-> q[1], qy |-> q[2]]
Moving == ~Zero(Stress(s.c.p, XX))
Closure ==
    n = 0 => LET e == ModelEvent
                 st == [s EXCEPT !.k = 0]
             IN  /\ XFails(st, e) = {}
                 /\ XFails(st, [e EXCEPT !.ws = Rel1(@)]) # {} /\ XFails(st, [e EXCEPT !.dep = Rel1(@)]) # {}
                 /\ (Moving => XFails(st, [e EXCEPT !.tau = Rel1(@)]) # {})
                 /\ (RLt("1e-6", e.ero) => XFails(st, [e EXCEPT !.ero = Rel1(@)]) # {})
                 /\ (RLt("1e-9", RAbs(e.qx)) => XFails(st, [e EXCEPT !.qx = Rel1(@)]) # {})
                 /\ XFails(st, [ev |-> "refused"]) # {}
\* erosion balances deposition at the equilibrium concentration, which is a fixed point of every scheme
Steady ==
    LET p == s.c.p
        e0 == Erosion(p, XX)
        cd == Deposition(p, XX)
        q == IF s.c.cons THEN RMul(Equilibrium(p, XX), XX.h) ELSE Equilibrium(p, XX)
    IN  /\ RClose(SedStep(s.c, e0, cd, q, XX.h), q, "1e-20", "1e-25")
        /\ RClose(BedChange(s.c, e0, cd, q, q, XX.h), "0", "1e-20", "1e-20")
\* without motion no erosion and no bedload; deposition never slower than settling
Threshold ==
    LET p == s.c.p
        q == Bedload(s.c, XX)
    IN  /\ (RLe(RMul(Stress(p, XX), Mu(p, XX.h)), TauCr(p)) => Zero(Erosion(p, XX)) /\ Zero(q[1]) /\ Zero(q[2]))
        /\ RLe(Settling(p), Deposition(p, XX))
        /\ RLe("0", VelFactor(p, XX)) /\ RLe(VelFactor(p, XX), "1")
        /\ RLe(Equilibrium(p, XX), ErosionC(p, XX))
\* bedload is along the flow on a flat bed, larger downhill, and turns with the coordinates
Turn(x) == [x EXCEPT !.u = RNeg(x.v), !.v = x.u, !.bx = RNeg(x.by), !.by = x.bx]
BedloadLaws ==
    (n = 0) =>
    LET q == Bedload(s.c, XX)
        full == [s.c EXCEPT !.mag = TRUE, !.angle = TRUE]
        secc == [full EXCEPT !.secc = TRUE]
        x1 == [XX EXCEPT !.bx = "1/50", !.by = "-1/30"]
        same(c, x) == LET a == Bedload(c, x)
                          b == Bedload(c, Turn(x))
                      IN  RClose(b[1], RNeg(a[2]), "1e-12", "1e-20") /\ RClose(b[2], a[1], "1e-12", "1e-20")
    IN  /\ RClose(RMul(q[1], XX.v), RMul(q[2], XX.u), "1e-12", "1e-20") /\ RLe("0", RAdd(RMul(q[1], XX.u), RMul(q[2], XX.v)))
        /\ same(s.c, XX) /\ same(full, x1) /\ same(secc, x1)
        /\ (RLt("0", XX.u) /\ RLt("0", q[1]) => LET d == Bedload(full, [XX EXCEPT !.bx = "1/50", !.by = "0"]) IN RLt(RAbs(q[1]), RAbs(d[1])))
        \* no surface slope: no secondary current
        /\ LET a == Bedload([s.c EXCEPT !.secc = TRUE], XX) IN RClose(a[1], q[1], "1e-12", "1e-20") /\ RClose(a[2], q[2], "1e-12", "1e-20")
\* with the same theta in both equations what leaves the bed is in suspension (Runge-Kutta: to the order of the scheme)
Balance ==
    (s.c.cons /\ s.c.sscheme \in {"ForwardEuler", "BackwardEuler", "CrankNicolson"}) =>
        LET e == Event(s) IN RClose(RSub(e.s, s.y.s), RDiv(RSub(e.b, s.y.b), Fac(s.c.p)), "1e-12", "1e-20")
\* closed boundaries keep the bed mass
ClosedBed ==
    (n = 0) => LET st == [s EXCEPT !.c.mode = "bed", !.c.sides = <<"none", "un0", "drag", "flux0">>]
                   q == Bedload(st.c, XX)
                   k == RMul(st.c.dt, Fac(st.c.p))
                   m(a) == RNeg(RMul(k, RMul("40", a)))
                   e == [ev |-> "moments", m0 |-> "0", mx |-> m(q[1]), my |-> m(q[2])]
               IN  XFails(st, e) = {} /\ XFails(st, [e EXCEPT !.m0 = RAdd(@, RAdd("1e-6", RMul(k, RAdd(RAbs(q[1]), RAbs(q[2])))))]) # {}
                   /\ XFails(st, [e EXCEPT !.mx = RAdd(@, RAdd("1e-6", RMul(k, RAdd(RAbs(q[1]), RAbs(q[2])))))]) # {}
====
