---- MODULE LedgerMC ----
(* Consistency of the specification Ledger.

   An ideal basin: the volume and the tracer masses are redistributed between two halves of the basin
   in every step and changed by the sources.  Its ledger is accepted; a ledger with a leak, a source
   counted twice, late or from the wrong time level is rejected; over several steps with a constant
   source the books close (initial + source * time, "telescoping"). *)
EXTENDS Ledger
CONSTANTS Deep
VARIABLES s, n, first
Vols == {<<"0", "0", "0">>, <<"1/1000", "1/1000000", "1/100">>} \cup (IF Deep THEN {<<"1/500", "0", "0">>} ELSE {})
Schemes == {"CrankNicolson", "BackwardEuler", "ForwardEuler", "SSPRK33", "DIRK22", "DIRK33"}
ConsSchemes == {"CrankNicolson", "BackwardEuler", "ForwardEuler"}
Tr(k, s0, s1) == [kind |-> k, s0 |-> s0, s1 |-> s1]
Sources == {<<"0", "0">>, <<"1/50", "1/1000">>, <<"1/50", "0">>}
TracerSets(ts) ==
    {<<Tr(k, x[1], x[2]), Tr("uniform", "0", "0")>> :
        k \in (IF ts \in ConsSchemes THEN {"cons", "consw", "div"} ELSE {"cons", "div"}), x \in Sources}
Base == [scheme |-> "CrankNicolson", tscheme |-> "CrankNicolson", theta |-> "1/2", ttheta |-> "7/10", nl |-> TRUE, wd |-> "none",
         tronly |-> FALSE, dt |-> "5", t0 |-> "10", tol |-> "1e-10", vol |-> <<"0", "0", "0">>, lx |-> "100", ly |-> "50",
         tracers |-> <<>>, rest |-> FALSE]
Configs == UNION {{[Base EXCEPT !.scheme = sc, !.tscheme = ts, !.vol = IF tonly THEN Vols0 ELSE v, !.nl = nl, !.tronly = tonly, !.tracers = tr] :
              tr \in TracerSets(ts), v \in Vols, nl \in (IF Deep THEN BOOLEAN ELSE {TRUE})}
              : sc \in (IF Deep THEN Schemes ELSE {"CrankNicolson", "SSPRK33"}), ts \in Schemes, tonly \in BOOLEAN, Vols0 \in {<<"0", "0", "0">>}}
Bvol == "30000"
Measure(ev, v, m, w) == [ev |-> ev, vol |-> v, wvol |-> v, bvol |-> Bvol, mass |-> m, wall |-> w, umax |-> "1", eta |-> "0", hmin |-> "1",
                         dev |-> <<"1", "0">>, scale |-> <<"10000", "10000">>, cscale |-> <<"1", "1">>]
Init == \E c \in Configs : s = LApply(LInit(c), Measure("init", "100", <<"700", "900">>, <<"1/10", "0">>)) /\ n = 0 /\ first = "700"
\* fluxes through the walls vary
Wall(k) == CASE k = 0 -> "1/5" [] k = 1 -> "-1/7" [] OTHER -> "0"
Good(st) ==
    LET c == st.c
        v == RAdd(st.led.vol, IF c.tronly THEN "0" ELSE VolGain(c, st.t))
        wo == Water(c, st.led.wvol, Bvol)
        wn == Water(c, v, Bvol)
        x == c.tracers[1]
        m == RAdd(st.led.mass[1], RSub(Gain(c, x, st.t, wo, wn), WallLoss(c, x, st.led.wall[1], Wall(n))))
    IN  Measure("step", v, <<m, "900">>, <<Wall(n), "0">>)
Next == n < 3 /\ n' = n + 1 /\ s' = LApply(s, Good(s)) /\ first' = first
Spec == Init /\ [][Next]_<<s, n, first>>
Accepted == LFails(s, Good(s)) = {}
Bump(x, d) == RAdd(x, d)
Corrupt(e) == {[e EXCEPT !.vol = Bump(@, "1/1000")], [e EXCEPT !.mass[1] = Bump(@, "1/1000")], [e EXCEPT !.dev[2] = "1e-6"],
               [e EXCEPT !.bvol = "30001"]}
Rejected == \A x \in Corrupt(Good(s)) : LFails(s, x) # {}
\* a source taken at another time (level) is noticed unless it is constant in time
WrongTime ==
    LET c == s.c
        v(m) == RAdd(s.led.vol, RMul(c.dt, RAdd(VolSource(c), RMul(RMul(VolSource(c), c.vol[3]), RAdd(s.t, RMul(m, c.dt))))))
    IN  (~c.tronly /\ VolSource(c) # "0" /\ c.vol[3] # "0") =>
        \A m \in {"0", "1/2", "1", "2"} : ~RClose(m, Mom(c.scheme, c.theta), "1e-9", "1e-9") => LFails(s, [Good(s) EXCEPT !.vol = v(m), !.wvol = v(m)]) # {}
Times(k) == R(CASE k = 0 -> "0" [] k = 1 -> "1" [] k = 2 -> "2" [] k = 3 -> "3")
\* with a constant volume source the volume is initial + source * time
Telescope ==
    (s.c.vol[3] = "0" /\ ~s.c.tronly) => s.led.vol = RAdd("100", RMul(RMul(Times(n), s.c.dt), VolSource(s.c)))
\* a tracer in divergence free flow with a constant source
TelescopeTracer ==
    LET x == s.c.tracers[1] IN
    (x.kind = "div" /\ x.s1 = "0") =>
        s.led.mass[1] = RAdd(first, RMul(RMul(RMul(Times(n), s.c.dt), x.s0), RMul(s.c.lx, s.c.ly)))
\* without sources and walls masses are constant
Closed == LET x == s.c.tracers[1] IN (x.s0 = "0" /\ x.s1 = "0" /\ x.kind \in {"cons", "div"}) => s.led.mass[1] = R(first)
\* the mean over the step is between the values at its ends
MeanBetween == \A sc \in Schemes : RLe("0", Mom(sc, s.c.theta)) /\ RLe(Mom(sc, s.c.theta), "1")
====
