---- MODULE TimeInt ----
(***************************************************************************)
(* Time integrators for a single equation (timeintegrator.py,              *)
(* rungekutta.py, implicitexplicit.py) as a labelled transition system.    *)
(*                                                                         *)
(* The integrated problem has n independent components                     *)
(*     du/dt = a u + b u + kap u u + f(t),    f(t) = f0 + f1 t             *)
(* where "a u" is labelled implicit, "b u" explicit, "f" source, and the   *)
(* quadratic term is of the form A(u_nl) u with the linearisation state    *)
(* u_nl.  Every number is an exact rational (Rat); irrational coefficients *)
(* are given with 28 digits.                                               *)
(*                                                                         *)
(* cfg: scheme, n, a, b, kap, f0, f1, u0 (sequences), t0, dt, theta, semi, *)
(*      forc (update_forcings given), fconst (f is a Constant field, which *)
(*      has no separate old value)                                         *)
(*                                                                         *)
(* An operation op of the integrator is bracketed by the events            *)
(*   begin(op, t, ..)   then   forcing(t')*   then   end(u).               *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

DIG == 26
Rd(x) == RRound(x, DIG)

-----------------------------------------------------------------------------
(* The documented schemes: Butcher tableaux from the cited papers. *)
g22 == "0.2928932188134524755991556379"    \* (2 - sqrt 2)/2
g23 == "0.7886751345948128822545743903"    \* (3 + sqrt 3)/6
g33 == "0.4358665215"
b33a == RAdd(RSub(RMul("4", g33), RMul("3/2", RMul(g33, g33))), "-1/4")
b33b == RAdd(RSub(RMul("3/2", RMul(g33, g33)), RMul("5", g33)), "5/4")
Z == "0"
Tableau(name) ==
    CASE name = "ForwardEuler" -> [a |-> <<<<Z>>>>, b |-> <<"1">>, c |-> <<Z>>]
      [] name = "BackwardEuler" -> [a |-> <<<<"1">>>>, b |-> <<"1">>, c |-> <<"1">>]
      [] name = "ImplicitMidpoint" -> [a |-> <<<<"1/2">>>>, b |-> <<"1">>, c |-> <<"1/2">>]
      [] name = "CrankNicolson" -> [a |-> <<<<Z, Z>>, <<"1/2", "1/2">>>>, b |-> <<"1/2", "1/2">>, c |-> <<Z, "1">>]
      [] name = "DIRK22" -> [a |-> <<<<g22, Z>>, <<RSub("1", g22), g22>>>>,
                             b |-> <<RSub("1", g22), g22>>, c |-> <<g22, "1">>]
      [] name = "DIRK23" -> [a |-> <<<<g23, Z>>, <<RSub("1", RMul("2", g23)), g23>>>>,
                             b |-> <<"1/2", "1/2">>, c |-> <<g23, RSub("1", g23)>>]
      [] name = "DIRK33" -> [a |-> <<<<g33, Z, Z>>, <<RDiv(RSub("1", g33), "2"), g33, Z>>, <<b33a, b33b, g33>>>>,
                             b |-> <<b33a, b33b, g33>>, c |-> <<g33, RDiv(RAdd("1", g33), "2"), "1">>]
      [] name = "DIRK43" -> [a |-> <<<<"1/2", Z, Z, Z>>, <<"1/6", "1/2", Z, Z>>, <<"-1/2", "1/2", "1/2", Z>>,
                                     <<"3/2", "-3/2", "1/2", "1/2">>>>,
                             b |-> <<"3/2", "-3/2", "1/2", "1/2">>, c |-> <<"1/2", "2/3", "1/2", "1">>]
      [] name = "DIRKLSPUM2" -> [a |-> <<<<"2/11", Z, Z>>, <<"205/462", "2/11", Z>>, <<"2033/4620", "21/110", "2/11">>>>,
                                 b |-> <<"24/55", "1/5", "4/11">>, c |-> <<"2/11", "289/462", "751/924">>]
      [] name = "DIRKLPUM2" -> [a |-> <<<<"2/11", Z, Z>>, <<"41/154", "2/11", Z>>, <<"289/847", "42/121", "2/11">>>>,
                                b |-> <<"1/3", "1/3", "1/3">>, c |-> <<"2/11", "69/154", "67/77">>]
      [] name = "SSPRK33" -> [a |-> <<<<Z, Z, Z>>, <<"1", Z, Z>>, <<"1/4", "1/4", Z>>>>,
                              b |-> <<"1/6", "1/6", "2/3">>, c |-> <<Z, "1", "1/2">>]
      [] name = "ERKLSPUM2" -> [a |-> <<<<Z, Z, Z>>, <<"5/6", Z, Z>>, <<"11/24", "11/24", Z>>>>,
                                b |-> <<"24/55", "1/5", "4/11">>, c |-> <<Z, "5/6", "11/12">>]
      [] name = "ERKLPUM2" -> [a |-> <<<<Z, Z, Z>>, <<"1/2", Z, Z>>, <<"1/2", "1/2", Z>>>>,
                               b |-> <<"1/3", "1/3", "1/3">>, c |-> <<Z, "1/2", "1">>]
      [] name = "ERKMidpoint" -> [a |-> <<<<Z, Z>>, <<"1/2", Z>>>>, b |-> <<Z, "1">>, c |-> <<Z, "1/2">>]
      [] name = "ESDIRKMidpoint" -> [a |-> <<<<Z, Z>>, <<Z, "1/2">>>>, b |-> <<Z, "1">>, c |-> <<Z, "1/2">>]
      [] name = "ESDIRKTrapezoid" -> [a |-> <<<<Z, Z>>, <<"1/2", "1/2">>>>, b |-> <<"1/2", "1/2">>, c |-> <<Z, "1">>]

\* class of /repo -> form of the scheme, implicit and explicit tableau
Form(name) ==
    CASE name = "ERKLPUM2ShuOsher" -> [k |-> "rk", e |-> "ERKLPUM2", i |-> "ERKLPUM2"]
      [] name = "ERKLSPUM2ShuOsher" -> [k |-> "rk", e |-> "ERKLSPUM2", i |-> "ERKLSPUM2"]
      [] name = "SSPRK33Butcher" -> [k |-> "rk", e |-> "SSPRK33", i |-> "SSPRK33"]
      [] name = "DIRK43UForm" -> [k |-> "rk", e |-> "DIRK43", i |-> "DIRK43"]
      [] name \in {"SSPRK33", "ERKLSPUM2", "ERKLPUM2", "ERKMidpoint"} -> [k |-> "rk", e |-> name, i |-> name]
      [] name = "ERKEuler" -> [k |-> "rk", e |-> "ForwardEuler", i |-> "ForwardEuler"]
      [] name \in {"BackwardEuler", "ImplicitMidpoint", "DIRK22", "DIRK23", "DIRK33", "DIRK43",
                   "DIRKLSPUM2", "DIRKLPUM2", "ESDIRKMidpoint", "ESDIRKTrapezoid"} -> [k |-> "rk", e |-> name, i |-> name]
      [] name = "CrankNicolsonRK" -> [k |-> "rk", e |-> "CrankNicolson", i |-> "CrankNicolson"]
      [] name = "BackwardEulerUForm" -> [k |-> "rk", e |-> "BackwardEuler", i |-> "BackwardEuler"]
      [] name = "DIRK22UForm" -> [k |-> "rk", e |-> "DIRK22", i |-> "DIRK22"]
      [] name = "DIRK33UForm" -> [k |-> "rk", e |-> "DIRK33", i |-> "DIRK33"]
      [] name = "IMEXLPUM2" -> [k |-> "imex", e |-> "ERKLPUM2", i |-> "DIRKLPUM2"]
      [] name = "IMEXLSPUM2" -> [k |-> "imex", e |-> "ERKLSPUM2", i |-> "DIRKLSPUM2"]
      [] name = "IMEXMidpoint" -> [k |-> "imex", e |-> "ERKMidpoint", i |-> "ESDIRKMidpoint"]
      [] name = "IMEXEuler" -> [k |-> "imex", e |-> "ForwardEuler", i |-> "BackwardEuler"]
      [] name \in {"ForwardEuler", "CrankNicolson", "SteadyState", "LeapFrogAM3", "SSPRK22ALE"}
           -> [k |-> name, e |-> name, i |-> name]
Order(name) ==
    CASE name \in {"ForwardEuler", "BackwardEuler"} -> 1
      [] name \in {"ImplicitMidpoint", "CrankNicolson", "DIRK22", "DIRKLSPUM2", "DIRKLPUM2", "ERKLSPUM2", "ERKLPUM2",
                   "ERKMidpoint", "ESDIRKMidpoint", "ESDIRKTrapezoid"} -> 2
      [] OTHER -> 3

-----------------------------------------------------------------------------
(* right hand sides of one component j *)
Lin(c, j) == RAdd(c.a[j], c.b[j])
Fa(c, j, u, unl, f) == Rd(RSum(<<RMul(Lin(c, j), u), RMul(c.kap[j], RMul(unl, u)), f>>))
Fi(c, j, u) == Rd(RMul(c.a[j], u))
Fe(c, j, u, f) == Rd(RAdd(RMul(c.b[j], u), f))
FAt(c, j, t) == RAdd(c.f0[j], RMul(c.f1[j], t))

\* U with U = base + g*(lam U + kap unl U + f)
SolveLin(base, g, lam, kap, unl, f) ==
    Rd(RDiv(RAdd(base, RMul(g, f)), RSub("1", RMul(g, RAdd(lam, RMul(kap, unl))))))
\* U with U = base + g*(lam U + kap U U + f): Newton's method from x, k steps
RECURSIVE Newton(_, _, _, _, _, _, _)
Newton(base, g, lam, kap, f, x, k) ==
    IF k = 0 THEN x
    ELSE LET res == RSub(RSub(x, base), RMul(g, RSum(<<RMul(lam, x), RMul(kap, RMul(x, x)), f>>)))
             jac == RSub("1", RMul(g, RAdd(lam, RMul("2", RMul(kap, x)))))
         IN  Newton(base, g, lam, kap, f, Rd(RSub(x, RDiv(res, jac))), k - 1)
Solve(c, base, g, lam, kap, unl, f, x) ==
    IF c.semi \/ kap = "0" THEN SolveLin(base, g, lam, kap, unl, f)
    ELSE Newton(base, g, lam, kap, f, x, 9)

\* sum_j w[j]*k[j] over the computed tendencies
Comb(w, k) == RDot([i \in 1..Len(k) |-> w[i]], k)

(* One Runge-Kutta step of component j: fs[i] is the forcing of stage i *)
RECURSIVE RKStages(_, _, _, _, _, _, _)
RKStages(c, j, tab, dt, u, fs, k) ==
    LET i == Len(k) + 1 IN
    IF i > Len(tab.b) THEN k
    ELSE LET base == RAdd(u, RMul(dt, Comb(tab.a[i], k)))
             U == Solve(c, base, RMul(dt, tab.a[i][i]), Lin(c, j), c.kap[j], u, fs[i], base)
         IN  RKStages(c, j, tab, dt, u, fs, Append(k, Fa(c, j, U, IF c.semi THEN u ELSE U, fs[i])))
RKStep(c, j, tab, dt, u, fs) == Rd(RAdd(u, RMul(dt, Comb(tab.b, RKStages(c, j, tab, dt, u, fs, <<>>)))))

RECURSIVE ImexStages(_, _, _, _, _, _, _, _, _)
ImexStages(c, j, ti, te, dt, u, fs, ki, ke) ==
    LET i == Len(ki) + 1 IN
    IF i > Len(ti.b) THEN [ki |-> ki, ke |-> ke]
    ELSE LET base == RAdd(u, RMul(dt, RAdd(Comb(ti.a[i], ki), Comb(te.a[i], ke))))
             U == SolveLin(base, RMul(dt, ti.a[i][i]), c.a[j], "0", "0", "0")
         IN  ImexStages(c, j, ti, te, dt, u, fs, Append(ki, Fi(c, j, U)), Append(ke, Fe(c, j, U, fs[i])))
ImexStep(c, j, ti, te, dt, u, fs) ==
    LET k == ImexStages(c, j, ti, te, dt, u, fs, <<>>, <<>>)
    IN  Rd(RAdd(u, RMul(dt, RAdd(Comb(ti.b, k.ki), Comb(te.b, k.ke)))))

ThetaStep(c, j, dt, uo, x, f, fo) ==
    LET base == RAdd(uo, RMul(RMul(dt, RSub("1", c.theta)), Fa(c, j, uo, uo, fo)))
    IN  Solve(c, base, RMul(dt, c.theta), Lin(c, j), c.kap[j], uo, f, x)

-----------------------------------------------------------------------------
TIInit(c0) ==
    LET c == [c0 EXCEPT !.a = [j \in 1..c0.n |-> R(c0.a[j])], !.b = [j \in 1..c0.n |-> R(c0.b[j])],
                        !.kap = [j \in 1..c0.n |-> R(c0.kap[j])], !.theta = R(c0.theta)]
        f == [j \in 1..c.n |-> FAt(c, j, c.t0)]
        u == [j \in 1..c.n |-> R(c.u0[j])]
    IN  [c |-> c, op |-> "none", exp |-> <<>>, got |-> <<>>, t |-> R(c.t0), dt |-> R(c.dt),
         u |-> u,              \* the solution
         uo |-> u,             \* previous solution (theta: old solution; leapfrog: u at t_{n-1})
         f |-> f, fo |-> f,    \* forcing field and its old value
         J |-> "1",            \* size of the elements
         m |-> u,              \* mass*solution stored by the two-stage schemes
         r |-> u,              \* right hand side stored by the two-stage schemes
         flags |-> [lag |-> TRUE, fld |-> TRUE], n |-> 0]

\* times at which the user's forcing function has to be called by operation e.op at time e.t
ForcTimes(s, e) ==
    LET fm == Form(s.c.scheme)
        at(ci) == RAdd(e.t, RMul(ci, s.dt))
        ti == Tableau(fm.i)
        te == Tableau(fm.e)
    IN
    IF ~s.c.forc THEN <<>>
    ELSE CASE e.op = "step" /\ fm.k = "rk" -> [i \in 1..Len(ti.c) |-> at(ti.c[i])]
           [] e.op = "step" /\ fm.k = "imex" ->
                [q \in 1..2*Len(ti.c) |-> IF q % 2 = 1 THEN at(ti.c[(q + 1) \div 2]) ELSE at(te.c[q \div 2])]
           [] e.op = "step" /\ fm.k = "SSPRK22ALE" -> <<at("0"), at("1")>>
           [] e.op = "step" \/ e.op = "picard" -> <<at("1")>>
           [] e.op = "prep1" -> <<at("0")>>
           [] e.op = "prep2" -> <<at("1")>>
           [] OTHER -> <<>>

\* forcing value of every call, per component
FVal(s, j, i) == IF s.c.forc THEN FAt(s.c, j, s.got[i]) ELSE s.f[j]

Map(c, F(_)) == [j \in 1..c.n |-> F(j)]
\* the state after the operation s.op, computed from the documented scheme
Result(s) ==
    LET c == s.c
        fm == Form(c.scheme)
        ti == Tableau(fm.i)
        te == Tableau(fm.e)
        dt == s.dt
        fNew(j) == IF s.got = <<>> THEN s.f[j] ELSE FAt(c, j, s.got[Len(s.got)])
        f1 == Map(c, fNew)
        done(u, uo, fo) == [s EXCEPT !.u = u, !.uo = uo, !.f = f1, !.fo = fo]
        euler(u, f) == Map(c, LAMBDA j : Fa(c, j, u[j], u[j], f[j]))
        lf(j) == Rd(RSum(<<RMul("1/3", s.uo[j]), RMul("2/3", s.u[j]),
                           RMul(RMul("5/6", dt), Fa(c, j, s.u[j], s.u[j], f1[j]))>>))
        fo(j) == IF c.fconst THEN fNew(j) ELSE s.fo[j]
        \* the operations of the two-stage schemes, on a mesh whose elements have size J
        lfpred(s0) == LET v == Map(c, lf) IN [s0 EXCEPT !.m = Map(c, LAMBDA j : RMul(s0.J, s0.u[j])), !.uo = s0.u, !.u = v]
        rhs(s0) == [s0 EXCEPT !.r = Map(c, LAMBDA j : RMul(RMul(s0.J, dt), Fa(c, j, s0.u[j], s0.u[j], f1[j])))]
        lfcorr(s0) == [s0 EXCEPT !.u = Map(c, LAMBDA j : Rd(RDiv(RAdd(s0.r[j], s0.m[j]), s0.J)))]
        prep1(s0, f) == LET m0 == Map(c, LAMBDA j : RMul(s0.J, s0.u[j])) IN
                     [s0 EXCEPT !.m = m0,
                         !.r = Map(c, LAMBDA j : RAdd(m0[j], RMul(RMul(s0.J, dt), Fa(c, j, s0.u[j], s0.u[j], f[j]))))]
        prep2(s0, f) == [s0 EXCEPT !.r = Map(c, LAMBDA j : RMul("1/2", RSum(<<s0.r[j], s0.m[j],
                                      RMul(RMul(s0.J, dt), Fa(c, j, s0.u[j], s0.u[j], f[j]))>>)))]
        sol(s0) == [s0 EXCEPT !.u = Map(c, LAMBDA j : Rd(RDiv(s0.r[j], s0.J)))]
        fi(i) == IF s.got = <<>> THEN s.f ELSE [j \in 1..c.n |-> FAt(c, j, s.got[i])]
    IN
    CASE s.op = "step" /\ fm.k = "rk" ->
           LET v == Map(c, LAMBDA j : RKStep(c, j, ti, dt, s.u[j], [i \in 1..Len(ti.c) |-> FVal(s, j, i)]))
           IN  done(v, v, f1)
      [] s.op = "step" /\ fm.k = "imex" ->
           LET v == Map(c, LAMBDA j : ImexStep(c, j, ti, te, dt, s.u[j], [i \in 1..Len(ti.c) |-> FVal(s, j, 2*i)]))
           IN  done(v, v, f1)
      [] s.op = "step" /\ fm.k = "ForwardEuler" ->
           LET v == Map(c, LAMBDA j : Rd(RAdd(s.u[j], RMul(dt, Fa(c, j, s.u[j], s.u[j], fo(j))))))
           IN  done(v, s.u, f1)
      [] s.op \in {"step", "picard"} /\ fm.k = "CrankNicolson" ->
           LET uo == IF s.op = "step" \/ s.flags.lag THEN s.u ELSE s.uo
               v == Map(c, LAMBDA j : ThetaStep(c, j, dt, uo[j], uo[j], f1[j], fo(j)))
           IN  done(v, uo, IF s.op = "step" \/ s.flags.fld THEN f1 ELSE s.fo)
      [] s.op = "step" /\ fm.k = "SteadyState" ->
           LET v == Map(c, LAMBDA j : Rd(RNeg(RDiv(f1[j], Lin(c, j))))) IN done(v, v, f1)
      [] s.op = "step" /\ fm.k = "LeapFrogAM3" -> [lfcorr(rhs(lfpred(s))) EXCEPT !.f = f1]
      [] s.op = "predict" -> lfpred(s)
      [] s.op = "eval_rhs" -> rhs(s)
      [] s.op = "correct" -> lfcorr(s)
      [] s.op = "step" /\ fm.k = "SSPRK22ALE" -> [sol(prep2(sol(prep1(s, fi(1))), fi(2))) EXCEPT !.f = f1]
      [] s.op = "prep1" -> [prep1(s, fi(1)) EXCEPT !.f = f1]
      [] s.op = "prep2" -> [prep2(s, fi(1)) EXCEPT !.f = f1]
      [] s.op \in {"solve1", "solve2"} -> sol(s)

RTOL == "1e-8"
SameSeq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : RClose(x[i], y[i], RTOL, "1e-9")

Cl(c, n) == IF c THEN {} ELSE {n}
Tol(x, y) == RClose(x, y, "1e-9", "1e-9")
SeqTol(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Tol(x[i], y[i])
\* the Shu-Osher form (alpha, beta) of a scheme reproduces its Butcher tableau: with the stages
\* y_0 = u, y_i = sum_j alpha_ij y_j + dt sum_j beta_ij F(y_j), the tendency weights of y_i in terms of the
\* stages of the tableau are the rows of [a; b] (implicit schemes: stage i is y_i; explicit: y_{i-1})
ShuOsherOk(t, alpha, beta) ==
    LET n == Len(t.b)
        bt(i) == IF i <= n THEN t.a[i] ELSE t.b
        impl == \E i \in 1..n : t.a[i][i] # "0"
        al(i) == IF impl THEN [j \in 1..n |-> alpha[i][j + 1]] ELSE [j \in 1..n |-> alpha[i][j]]
        be(i) == IF impl THEN [j \in 1..n |-> beta[i][j + 1]] ELSE [j \in 1..n |-> beta[i][j]]
    IN  /\ Len(alpha) = n + 1 /\ Len(beta) = n + 1
        /\ \A i \in 1..n + 1 : Tol(RSum(alpha[i]), "1")
        /\ \A i \in 1..n + 1, k \in 1..n :
              Tol(bt(i)[k], RAdd(be(i)[k], RSum([j \in 1..n |-> RMul(al(i)[j], t.a[j][k])])))
TIFails(s, e) ==
    CASE e.ev = "begin" -> Cl(s.op = "none", "nested_operation")
      [] e.ev = "forcing" ->
           IF s.exp = <<>> THEN {"forcing_unexpected"}
           ELSE Cl(RClose(e.t, Head(s.exp), "1e-10", "1e-10"), "forcing_time")
      [] e.ev = "end" ->
           Cl(s.exp = <<>>, "forcing_missing") \cup
           (IF s.exp # <<>> THEN {} ELSE Cl(SameSeq(e.u, Result(s).u), "step_value_" \o s.op))
      [] e.ev = "tableau" ->
           LET t == Tableau(Form(e.name).i)
           IN  Cl(SeqTol(e.b, t.b) /\ SeqTol(e.c, t.c) /\ Len(e.a) = Len(t.a)
                    /\ \A i \in 1..Len(t.a) : SeqTol(e.a[i], t.a[i]), "tableau")
               \cup (IF e.so THEN Cl(ShuOsherOk(t, e.alpha, e.beta), "shu_osher_form") ELSE {})
      [] e.ev \in {"set_dt", "perturb", "mesh"} -> Cl(s.op = "none", "nested_operation")
      [] OTHER -> {"unknown_event"}

TIApply(s, e) ==
    CASE e.ev = "begin" -> [s EXCEPT !.op = e.op, !.t = R(e.t), !.exp = ForcTimes(s, e), !.got = <<>>,
                               !.flags = IF e.op = "picard" THEN [lag |-> e.lag, fld |-> e.fld] ELSE @]
      [] e.ev = "forcing" -> [s EXCEPT !.got = Append(@, Head(s.exp)), !.exp = Tail(@)]
      [] e.ev = "end" -> LET r == Result(s)
                             v == [j \in 1..s.c.n |-> R(e.u[j])]
                         IN  [r EXCEPT !.op = "none", !.u = v, !.got = <<>>, !.n = @ + 1]
      [] e.ev = "tableau" -> s
      [] e.ev = "set_dt" -> [s EXCEPT !.dt = R(e.dt)]
      [] e.ev = "perturb" -> [s EXCEPT !.u = [j \in 1..s.c.n |-> R(e.u[j])]]
      [] e.ev = "mesh" -> [s EXCEPT !.J = R(e.J)]

TIInvFails(s) == {}
TIFinal(s) == Cl(s.op = "none" /\ s.n > 0, "run_incomplete")
====
