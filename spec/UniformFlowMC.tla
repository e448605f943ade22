---- MODULE UniformFlowMC ----
(* Consistency of the specification UniformFlow: solutions of the linear problems of the schemes are
   accepted, disturbed ones are rejected, friction dissipates, Coriolis preserves the speed, a theta
   scheme with theta = 1 is the implicit Euler method, depths stay positive. *)
EXTENDS UniformFlow
CONSTANTS Deep
VARIABLES s, n
Zero4 == <<"0", "0", "0", "0">>
Base == [picard |-> 2, scheme |-> "BackwardEuler", tscheme |-> "BackwardEuler", theta |-> "1/2", ttheta |-> "1/2", semi |-> TRUE, kind |-> "func", nl |-> TRUE,
         wd |-> "none", b |-> "5", f |-> "0", lin |-> "0", drag |-> "none", dragc |-> "0", norm |-> "0", family |-> "dg-dg",
         turb |-> [ct |-> "4/5", diam |-> "6", density |-> "0"], tau |-> Zero4, mom |-> Zero4, vol |-> <<"0", "0">>,
         press |-> Zero4, dt |-> "2", t0 |-> "0", u |-> "1", v |-> "-1/2", eta |-> "1/4", tronly |-> FALSE,
         tracers |-> <<[c |-> "1", s0 |-> "1/4", s1 |-> "1/100", cons |-> FALSE], [c |-> "1", s0 |-> "1/4", s1 |-> "1/100", cons |-> TRUE]>>]
Forced == [Base EXCEPT !.tau = <<"10", "1", "0", "-1">>, !.mom = <<"1/100", "0", "1/200", "1/1000">>, !.press = <<"1", "0", "-2", "1/10">>,
                       !.vol = <<"1/50", "-1/500">>]
Configs ==
    {[x EXCEPT !.scheme = sc, !.tscheme = sc, !.f = f, !.lin = li, !.drag = d, !.dragc = IF d = "nikuradse" THEN "1/10" ELSE "1/40",
               !.norm = nr, !.kind = k] :
        x \in {Base, Forced}, sc \in {"BackwardEuler", "DIRK22", "SSPRK33", "ForwardEuler"} \cup (IF Deep THEN {"DIRK33"} ELSE {}),
        f \in {"0", "1/20"}, li \in {"0", "1/50"}, d \in {"none", "quadratic", "manning", "nikuradse"},
        nr \in {"0", "1/10"}, k \in (IF Deep THEN {"func", "const"} ELSE {"func"})}
Init == \E c \in Configs : s = UInit(c) /\ n = 0
\* the event that an exact solver produces
Exact(st) ==
    LET y == UStep(st.c, st.t, st.y)
    IN  [ev |-> "step", u |-> y.u, v |-> y.v, eta |-> y.eta, var |-> "0",
         c |-> [i \in 1..Len(st.tr) |-> TStep(st.c, st.c.tracers[i], st.t, st.tr[i], Depth(st.c, st.y.eta), Depth(st.c, y.eta))]]
Rounded(e) == [e EXCEPT !.u = RRound(@, 15), !.v = RRound(@, 15), !.eta = RRound(@, 15), !.c = [i \in 1..Len(@) |-> RRound(@[i], 15)]]
Next == n < 2 /\ n' = n + 1 /\ s' = UApply(s, Rounded(Exact(s)))
Spec == Init /\ [][Next]_<<s, n>>
Accepted == UFails(s, Rounded(Exact(s))) = {}
Bump(x) == RAdd(x, "1e-6")
Disturbed(e) == {[e EXCEPT !.u = Bump(@)], [e EXCEPT !.v = Bump(@)], [e EXCEPT !.eta = Bump(@)], [e EXCEPT !.c[1] = Bump(@)],
                 [e EXCEPT !.c[2] = Bump(@)], [e EXCEPT !.var = "1e-6"]}
Rejected == \A x \in Disturbed(Exact(s)) : UFails(s, x) # {}
\* the implicit Euler step solves the residual equations of the theta scheme with theta = 1, not those of theta = 1/2
\* (unless nothing changes)
TwoForms ==
    s.c.scheme = "BackwardEuler" =>
        LET y == UStep(s.c, s.t, s.y)
            c1 == [s.c EXCEPT !.scheme = "CrankNicolson", !.theta = "1"]
            r == ResU(c1, s.t, s.y, y)
        IN  \A i \in 1..3 : RLe(RAbs(r[i]), "1e-25")
\* implicit schemes: the speed does not grow without forcing
Speed(y) == RAdd(Sq(y.u), Sq(y.v))
Unforced(c) == c.tau = Zero4 /\ c.mom = Zero4 /\ c.press = Zero4
Dissipation ==
    (s.c.scheme \in {"BackwardEuler", "DIRK22"} /\ Unforced(s.c)) =>
        RLe(Speed(UStep(s.c, s.t, s.y)), RAdd(Speed(s.y), "1e-20"))
\* without friction and rotation the momentum changes by the impulse of the forcing
Impulse ==
    (s.c.lin = "0" /\ s.c.drag = "none" /\ s.c.f = "0" /\ Unforced(s.c)) =>
        LET y == UStep(s.c, s.t, s.y) IN RClose(y.u, s.y.u, "1e-25", "1e-25") /\ RClose(y.v, s.y.v, "1e-25", "1e-25")
\* one Picard iteration is the semi-implicit theta scheme; many are the implicit one
PicardLimit ==
    s.c.scheme = "BackwardEuler" =>
        LET c0 == [s.c EXCEPT !.scheme = "PressureProjectionPicard", !.theta = "3/5", !.picard = 1]
            eta == RAdd(s.y.eta, RMul(c0.dt, Mix(c0, LinT(c0.vol, 1, RAdd(s.t, c0.dt)), LinT(c0.vol, 1, TOld(c0, s.t)))))
            r1 == ResU([c0 EXCEPT !.scheme = "CrankNicolson"], s.t, s.y, PStep(c0, s.t, s.y, eta))
            rn == ResU([c0 EXCEPT !.scheme = "CrankNicolson", !.semi = FALSE], s.t, s.y, PStep([c0 EXCEPT !.picard = 12], s.t, s.y, eta))
        IN  \A i \in 1..2 : RLe(RAbs(r1[i]), "1e-20") /\ RLe(RAbs(rn[i]), "1e-6")
DepthPositive == RLt("0", Depth(s.c, s.y.eta))
\* the displacement keeps the depth positive on dry land and is monotone
WetDry ==
    \A b \in {"-3", "-1", "0", "1", "10"}, e \in {"-2", "0", "1/2"} :
        LET c == [s.c EXCEPT !.wd = "1/2", !.b = b] IN
        /\ RLt("0", Depth(c, e)) /\ RLt(Depth(c, e), Depth(c, RAdd(e, "1/10")))
        /\ RLe(RAdd(b, e), Depth(c, e))
====
