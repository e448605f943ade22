---- MODULE TimeIntMC ----
(* Bounded exhaustive check of TimeInt: every scheme, short programs of operations. *)
EXTENDS TimeInt, TLC
CONSTANTS Schemes, MaxOps
VARIABLES s, stop

Par(a, b, kap, f0, f1) == [a |-> <<a>>, b |-> <<b>>, kap |-> <<kap>>, f0 |-> <<f0>>, f1 |-> <<f1>>]
Zero == Par("0", "0", "0", "0", "0")
Ramp == Par("0", "0", "0", "2", "3")
Fix == Par("-1", "-1", "0", "3", "0")            \* u = 3/2 is stationary
Gen == Par("-1/2", "1/4", "0", "1", "-2")
Quad == Par("-1/2", "1/4", "1/8", "1", "-2")
Cfg(sch, p, semi, forc, fconst, u0) ==
    [scheme |-> sch, n |-> 1, a |-> p.a, b |-> p.b, kap |-> p.kap, f0 |-> p.f0, f1 |-> p.f1, u0 |-> <<u0>>,
     t0 |-> "0", dt |-> "1/2", theta |-> "1/2", semi |-> semi, forc |-> forc, fconst |-> fconst]
IsLin(p) == p.kap = <<"0">>
Imex(sch) == Form(sch).k = "imex"
Implicit(sch) == LET t == Tableau(Form(sch).i) IN \E i \in 1..Len(t.b) : t.a[i][i] # "0"
Configs ==
    {Cfg(sch, p, semi, forc, fc, u0) : sch \in Schemes, p \in {Zero, Ramp, Fix, Gen, Quad}, semi \in BOOLEAN,
        forc \in BOOLEAN, fc \in BOOLEAN, u0 \in {"3/2"}}
Legal(c) ==
    /\ c.fconst => c.scheme \in {"ForwardEuler", "CrankNicolson"}
    /\ c.semi => c.kap # <<"0">>
    /\ c.kap # <<"0">> => (~Imex(c.scheme) /\ c.scheme # "SteadyState")
    /\ c.scheme = "SteadyState" => c.a = <<"-1">>
    /\ (c.semi /\ Form(c.scheme).k = "rk") => Implicit(c.scheme)
Init == stop = FALSE /\ \E c \in Configs : Legal(c) /\ s = TIInit(c)

\* programs respect the order of the two-stage operations
Ops(st) ==
    LET k == Form(st.c.scheme).k
        b(op) == [ev |-> "begin", op |-> op, t |-> st.t]
    IN  CASE k \in {"rk", "imex", "ForwardEuler", "SteadyState"} -> {b("step")}
          [] k = "CrankNicolson" -> {b("step")} \cup
                {[ev |-> "begin", op |-> "picard", t |-> st.t, lag |-> x, fld |-> y] : x \in BOOLEAN, y \in BOOLEAN}
          [] k = "LeapFrogAM3" -> CASE st.n % 4 = 0 -> {b("predict")} [] st.n % 4 = 1 -> {b("eval_rhs")}
                                    [] st.n % 4 = 2 -> {b("correct")} [] OTHER -> {b("step")}
          [] k = "SSPRK22ALE" -> CASE st.n % 5 = 0 -> {b("prep1")} [] st.n % 5 = 1 -> {b("solve1")}
                                   [] st.n % 5 = 2 -> {b("prep2")} [] st.n % 5 = 3 -> {b("solve2")} [] OTHER -> {b("step")}
TwoStage(st) == Form(st.c.scheme).k \in {"LeapFrogAM3", "SSPRK22ALE"}
Emits(st) ==
    IF st.op # "none"
    THEN IF st.exp # <<>> THEN {[ev |-> "forcing", t |-> Head(st.exp)]} ELSE {[ev |-> "end", u |-> Result(st).u]}
    ELSE IF st.n >= MaxOps + (IF TwoStage(st) THEN 4 ELSE 0) THEN {}
    ELSE Ops(st) \cup (IF st.dt = "1/2" THEN {[ev |-> "set_dt", dt |-> "1/4"]} ELSE {})
         \cup (IF st.c.scheme = "LeapFrogAM3" /\ st.n % 4 = 2 /\ st.J = "1" THEN {[ev |-> "mesh", J |-> "2"]} ELSE {})
         \cup (IF st.c.scheme = "SSPRK22ALE" /\ st.n % 5 \in {1, 3} /\ st.J # "3"
               THEN {[ev |-> "mesh", J |-> IF st.J = "1" THEN "2" ELSE "3"]} ELSE {})
Corrupt(e) ==
    CASE e.ev = "forcing" -> {[e EXCEPT !.t = RAdd(@, "1/8")], [ev |-> "end", u |-> <<"0">>]}
      [] e.ev = "end" -> {[e EXCEPT !.u = <<RAdd(@[1], "1e-6")>>], [e EXCEPT !.u = <<"nan">>],
                          [ev |-> "forcing", t |-> "0"], [ev |-> "begin", op |-> "step", t |-> "0"]}
      [] OTHER -> {}
Next == /\ ~stop
        /\ \/ \E e \in Emits(s) : s' = TIApply(s, e) /\ UNCHANGED stop
           \/ Emits(s) = {} /\ stop' = TRUE /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, stop>>

EmitsAllowed == \A e \in Emits(s) : TIFails(s, e) = {}
CorruptRejected == \A e \in Emits(s) : \A x \in Corrupt(e) : TIFails(s, x) # {}
\* the state is a solution of a completed step
AtRest == s.op = "none" /\ CASE Form(s.c.scheme).k = "LeapFrogAM3" -> s.n % 4 \in {0, 3}
                              [] Form(s.c.scheme).k = "SSPRK22ALE" -> s.n % 5 \in {0, 4}
                              [] OTHER -> TRUE
ZeroCfg == s.c.a = <<"0">> /\ s.c.b = <<"0">> /\ s.c.f0 = <<"0">>
FixCfg == s.c.b = <<"-1">>
\* no tendency: the mass J*u of an element never changes
Conserves == ZeroCfg /\ AtRest => RClose(RMul(s.J, s.u[1]), "3/2", "0", "1e-20")
\* a stationary state stays
Stationary == FixCfg /\ ~Imex(s.c.scheme) /\ s.op = "none" /\ s.J = "1" => RClose(s.u[1], "3/2", "0", "1e-20")
\* linear forcing is integrated exactly by the schemes of second and higher order
RampCfg == s.c.a = <<"0">> /\ s.c.b = <<"0">> /\ s.c.f1 = <<"3">> /\ s.c.forc
RampExact ==
    (RampCfg /\ s.op = "step" /\ s.exp = <<>> /\ Form(s.c.scheme).k \in {"rk", "imex"} /\ Order(Form(s.c.scheme).e) >= 2)
    => LET t == s.t
           inc == RAdd(RMul("2", s.dt), RMul("3", RMul(s.dt, RAdd(t, RDiv(s.dt, "2")))))
       IN  RClose(Result(s).u[1], RAdd(s.u[1], inc), "0", "1e-9")
-----------------------------------------------------------------------------
Near(x, y) == RClose(x, y, "0", "1e-9")
Tabs == {"ForwardEuler", "BackwardEuler", "ImplicitMidpoint", "CrankNicolson", "DIRK22", "DIRK23", "DIRK33", "DIRK43",
         "DIRKLSPUM2", "DIRKLPUM2", "SSPRK33", "ERKLSPUM2", "ERKLPUM2", "ERKMidpoint", "ESDIRKMidpoint", "ESDIRKTrapezoid"}
Quad2(b, c) == RSum([i \in 1..Len(b) |-> RMul(b[i], RMul(c[i], c[i]))])
AC(a, c) == [i \in 1..Len(c) |-> RDot(a[i], c)]
ASSUME \A n \in Tabs : LET t == Tableau(n) IN
    /\ Near(RSum(t.b), "1")
    /\ \A i \in 1..Len(t.c) : Near(RSum(t.a[i]), t.c[i])
    /\ Order(n) >= 2 => Near(RDot(t.b, t.c), "1/2")
    /\ Order(n) >= 3 => Near(Quad2(t.b, t.c), "1/3") /\ Near(RDot(t.b, AC(t.a, t.c)), "1/6")
\* coupling conditions of the implicit-explicit pairs of second order
ASSUME \A n \in {"IMEXLPUM2", "IMEXLSPUM2", "IMEXMidpoint"} :
    LET i == Tableau(Form(n).i)
        e == Tableau(Form(n).e)
    IN  Near(RDot(i.b, e.c), "1/2") /\ Near(RDot(e.b, i.c), "1/2")
====
