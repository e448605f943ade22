---- MODULE Diag3dMC ----
(* Consistency of the specification Diag3d: for a family of bathymetries, layerings, surfaces and profiles the event
   built from the definitions is accepted and every disturbed one rejected; a state left over from an earlier surface
   is rejected; the integrals from the bed and from the surface are complementary, the average keeps constants, the
   integral of a constant is the depth, levels are ordered, the product is exact for constants and keeps the mean,
   the linear and the full equation of state respond with the right sign, the surface is not crossed by the flow. *)
EXTENDS Diag3d
CONSTANTS Deep
VARIABLES s, n

Tri(v) == <<v, v, v>>
Lins == [rho_ref |-> "1003", s_ref |-> "30", th_ref |-> "10", alpha |-> "1/4", beta |-> "3/4"]
St(eta, eta1, u3, pgk) ==
    [eta |-> eta, eta1 |-> eta1, bu |-> "1/2", bd |-> "-3", c |-> "1/2", u2 |-> <<"1/2", "1/1000", "0", "-1/4", "1/500", "-1/900">>,
     u3 |-> u3, salt |-> IF pgk = "flat" THEN <<"lin", <<"25", "1/700", "-1/900", "1/50">>>> ELSE <<"lin", <<"25", "0", "0", "0">>>>,
     temp |-> IF pgk = "flat" THEN <<"lin", <<"12", "-1/900", "1/100", "-1/20">>>> ELSE <<"lin", <<"12", "0", "0", "0">>>>, pgk |-> pgk]
Flat3 == << <<"lin", <<"1/8", "1/2000", "1/1000", "0">>>>, <<"lin", <<"-1/4", "1/1500", "0", "0">>>> >>
Shear3 == << <<"lin", <<"1/8", "0", "0", "1/40">>>>, <<"lin", <<"-1/4", "1/1500", "0", "-1/50">>>> >>
Level(x) == [i \in 1..6 |-> x]
Plane == <<"1/2", "1/4", "0", "3/4", "1/2", "1/4">>
Rugged == <<"1/2", "-1/4", "0", "3/4", "1", "-3/2">>
Cfg(h, stretch, ale, eos, states) ==
    [nx |-> 2, ny |-> 1, lx |-> "600", ly |-> "300", n |-> IF Deep THEN 3 ELSE 2, stretch |-> stretch, h |-> h, ale |-> ale, open |-> TRUE,
     dt |-> "20", cs |-> "3/10", eos |-> eos, lin |-> Lins, salt |-> TRUE, temp |-> TRUE, quad |-> FALSE, smag |-> TRUE, turb |-> TRUE,
     pp |-> [max_viscosity |-> "1/20", alpha |-> "10", exponent |-> "3/2"], family |-> "dg-dg", states |-> states, s0 |-> "32", t0 |-> "12"]
FlatBed == Level("20")
Slope == <<"20", "15", "10", "18", "13", "8">>
Rough == <<"20", "9", "14", "8", "24", "13">>
Configs ==
    {Cfg(h, st, TRUE, eos, <<St(Plane, Rugged, Flat3, IF eos = "linear" THEN "uniform" ELSE "none"), St(Rugged, Level("1"), Shear3, "none")>>) :
        h \in {Slope, Rough}, st \in {"1", "2"} \cup (IF Deep THEN {"1/2"} ELSE {}), eos \in {"linear", "full"}}
    \cup {Cfg(FlatBed, "3/2", ale, "linear", <<St(Level("3/2"), Level("-1"), Flat3, "flat"), St(Level("-1"), Plane, Shear3, "flat")>>) :
        ale \in BOOLEAN}

-----------------------------------------------------------------------------
Co(sp, x, y, z) == RAdd(RAdd(sp[2][1], RMul(sp[2][2], x)), RAdd(RMul(sp[2][3], y), RMul(sp[2][4], z)))
Lay(c, F(_, _, _)) == TLCEval([k \in 1..c.n |-> TLCEval([b \in 1..2 |-> TLCEval([a \in 1..3 |-> F(k, b, a)])])])
Column(c, st, vs) ==
  LET m == c.n
      z == Lev(c, st, vs)
      d == Thick(z)
      x == [a \in 1..3 |-> VX(c, vs[a])]
      y == [a \in 1..3 |-> VY(c, vs[a])]
      zz(k, b, a) == z[IF b = 1 THEN k ELSE k + 1][a]
      hh == [a \in 1..3 |-> c.h[vs[a]]]
      w == Share(c)
      f == Lay(c, LAMBDA k, b, a: RAdd(ToString(k*b), RDiv(ToString(a*a), "7")))
      ux(k, b, a) == Co(st.u3[1], x[a], y[a], zz(k, b, a))
      uy(k, b, a) == Co(st.u3[2], x[a], y[a], zz(k, b, a))
      u == <<Lay(c, ux), Lay(c, uy)>>
      salt == Lay(c, LAMBDA k, b, a: Ru(Co(st.salt, x[a], y[a], zz(k, b, a))))
      temp == Lay(c, LAMBDA k, b, a: Ru(Co(st.temp, x[a], y[a], zz(k, b, a))))
      rho == Lay(c, LAMBDA k, b, a: Ru(Dens(c, salt[k][b][a], temp[k][b][a])))
      up == TLCEval(FromBed(Up(d, f, m), st.bu))
      down == TLCEval(FromTop(TLCEval(Up(d, f, m)), st.bd))
      hd == TLCEval(FromTop(TLCEval(Up(d, rho, m)), "0"))
      tt == Tot(st)
      hx == GradX(x, y, hh)
      hy == GradY(x, y, hh)
      ww(k, b, a) == LET ua == RAdd(tt[1], RAdd(RMul(tt[2], x[a]), RMul(tt[3], y[a])))
                         va == RAdd(tt[4], RAdd(RMul(tt[5], x[a]), RMul(tt[6], y[a])))
                     IN  RNeg(RAdd(RAdd(RMul(ua, hx), RMul(va, hy)), RMul(RAdd(tt[2], tt[6]), RAdd(zz(k, b, a), hh[a]))))
      rc == RhoCo(c, st)
      gu == VGrad(m, d, u[1])
      gv == VGrad(m, d, u[2])
      gr == VGrad(m, d, rho)
      m2 == TLCEval([k \in 1..m |-> RMax(RAdd(Sq(gu[k]), Sq(gv[k])), "1e-12")])
      n2 == TLCEval([k \in 1..m |-> RNeg(RMul(RDiv(G, Rho0), gr[k]))])
      den(k) == RAdd("1", RMul(c.pp.alpha, RDiv(IF RLe("0", n2[k]) THEN n2[k] ELSE "1e-12", m2[k])))
      nu == TLCEval([k \in 1..m |-> RDiv(c.pp.max_viscosity, RPow(den(k), c.pp.exponent))])
      ee == [a \in 1..3 |-> Eta(c, st, vs[a])]
      pgi(i, k, b, a) == IF st.pgk = "flat" THEN RMul(RDiv(G, Rho0), RMul(rc[i + 1], RSub(Eta(c, st, vs[1]), zz(k, b, a))))
                         ELSE IF st.pgk = "uniform"
                         THEN RMul(RMul(RDiv(G, Rho0), RhoConst(c, st)), IF i = 1 THEN GradX(x, y, ee) ELSE GradY(x, y, ee))
                         ELSE "0"
  IN  [vs |-> vs, ez |-> Lay(c, LAMBDA k, b, a: d[k][a]), ez2 |-> d[m],
       hcc |-> Lay(c, LAMBDA k, b, a: LET q == z[IF b = 1 THEN k ELSE k + 1] IN RDiv(RSub(Max3(q), Min3(q)), d[k][a])),
       f |-> f, up |-> up, down |-> down, dgup |-> [k \in 1..m |-> <<up[2*k - 1], up[2*k + 1]>>],
       dgdown |-> [k \in 1..m |-> <<down[2*k - 1], down[2*k + 1]>>], av |-> [k \in 1..m |-> <<Avg(w, f, k - 1), Avg(w, f, k)>>],
       e2 |-> <<"1", "2", "4">>, e3 |-> Lay(c, LAMBDA k, b, a: <<"1", "2", "4">>[a]),
       sub |-> <<[b |-> "top", f |-> "top", v |-> f[m][2]], [b |-> "bottom", f |-> "top", v |-> f[1][2]],
                 [b |-> "top", f |-> "bottom", v |-> f[m][1]], [b |-> "bottom", f |-> "average", v |-> Comb("1/2", f[1][1], "1/2", f[1][2])]>>,
       u |-> u, uav |-> <<Avg(w, u[1], m), Avg(w, u[2], m)>>,
       ud |-> [i \in 1..2 |-> Lay(c, LAMBDA k, b, a: RAdd(st.u2[3*i - 2], RAdd(RMul(st.u2[3*i - 1], x[a]), RMul(st.u2[3*i], y[a]))))],
       w |-> Lay(c, ww), salt |-> salt, temp |-> temp, rho |-> rho,
       head |-> [i \in 1..Len(hd) |-> [a \in 1..3 |-> RNeg(RDiv(hd[i][a], Rho0))]],
       pg |-> [i \in 1..2 |-> Lay(c, LAMBDA k, b, a: pgi(i, k, b, a))],
       smag |-> IF FlatU(st) THEN <<Smag(c, st)>> ELSE <<>>, m2 |-> m2, n2 |-> n2, nu |-> nu, mu |-> [k \in 1..m |-> RDiv(nu[k], den(k))]]
StateEv(c, st) ==
  [ev |-> "state", z |-> [v \in 1..NV(c) |-> [k \in 1..(c.n + 1) |-> Zc(c, st, v, k - 1)]], ecg |-> st.eta,
   hs |-> [v \in 1..NV(c) |-> HSize(c)], flux |-> "0", cells |-> <<TLCEval(Column(c, st, <<2, 5, 6>>))>>]
WmEv(c, st) ==
  [ev |-> "wmesh", w |-> [v \in 1..NV(c) |-> [k \in 1..(c.n + 1) |->
      RDiv(RMul(RSub(st.eta1[v], st.eta[v]), RSub("1", Sig(c, k - 1))), RMul(c.dt, st.c))]]]
Now == s.cfg.states[s.k]
\* the mixing of another profile (reversed stratification) in the same column
MixEv(c, st) == [ev |-> "mixing", cells |-> <<TLCEval(Column(c, [st EXCEPT !.salt = <<"lin", <<"25", "0", "0", "1/30">>>>,
                      !.temp = <<"lin", <<"12", "0", "0", "0">>>>, !.u3 = Shear3], <<1, 2, 5>>))>>]
Exact == IF Due(s) = "state" THEN StateEv(s.cfg, Now) ELSE IF Due(s) = "mixing" THEN MixEv(s.cfg, Now) ELSE WmEv(s.cfg, Now)
Init == \E c \in Configs : s = DInit(c) /\ n = 0
Next == s.k <= Len(s.cfg.states) /\ n' = n + 1 /\ s' = DApply(s, Exact)
Spec == Init /\ [][Next]_<<s, n>>
Running == s.k <= Len(s.cfg.states)
Accepted == Running => DFails(s, Exact) = {}
Up1(x) == RAdd(RMul("1001/1000", x), "1/500")
Disturbed(e) ==
  IF e.ev = "wmesh" THEN {[e EXCEPT !.w[2][2] = Up1(@)]}
  ELSE IF e.ev = "mixing" THEN {[e EXCEPT !.cells[1].nu[1] = Up1(@)], [e EXCEPT !.cells[1].n2[2] = Up1(@)], [e EXCEPT !.cells[1].mu[2] = Up1(@)]}
  ELSE {[e EXCEPT !.z[3][2] = Up1(@)]} \cup (IF s.cfg.ale THEN {[e EXCEPT !.ecg[4] = Up1(@)]} ELSE {})
       \cup {[e EXCEPT !.hs[2] = RMul("2", @)]}
       \cup {[e EXCEPT !.cells[1] = x] : x \in LET q == e.cells[1] IN
               {[q EXCEPT !.ez[1][2][3] = Up1(@)], [q EXCEPT !.ez2[2] = Up1(@)], [q EXCEPT !.hcc[2][1][2] = Up1(@)],
                [q EXCEPT !.up[2][1] = Up1(@)], [q EXCEPT !.down[4][2] = Up1(@)], [q EXCEPT !.av[2][2][1] = Up1(@)],
                [q EXCEPT !.dgup[1][2][1] = Up1(@)], [q EXCEPT !.dgdown[1][1][1] = Up1(@)], [q EXCEPT !.e3[2][1][3] = Up1(@)],
                [q EXCEPT !.sub[3].v[1] = Up1(@)], [q EXCEPT !.uav[2][1] = Up1(@)], [q EXCEPT !.ud[1][1][2][3] = Up1(@)],
                [q EXCEPT !.rho[1][1][1] = Up1(@)], [q EXCEPT !.head[1][1] = Up1(@)],
                [q EXCEPT !.m2[2] = Up1(@)], [q EXCEPT !.n2[2] = Up1(@)], [q EXCEPT !.nu[1] = Up1(@)], [q EXCEPT !.mu[1] = Up1(@)]}
               \cup (IF FlatU(Now) THEN {[q EXCEPT !.w[1][2][1] = Up1(@)], [q EXCEPT !.smag[1] = RMul("11/10", @)]} ELSE {})
               \cup (IF Now.pgk # "none" THEN {[q EXCEPT !.pg[2][1][1][1] = Up1(@)]} ELSE {})}
Rejected == Running => \A x \in Disturbed(Exact) : DFails(s, x) # {}
\* what is left of another surface is noticed
Stale == (Running /\ Due(s) = "state" /\ s.cfg.ale) =>
    LET old == StateEv(s.cfg, [Now EXCEPT !.eta = Now.eta1])
        e == Exact
        p == old.cells[1]
        q == e.cells[1]
    IN  \A x \in {[q EXCEPT !.ez = p.ez], [q EXCEPT !.up = p.up], [q EXCEPT !.down = p.down], [q EXCEPT !.head = p.head],
                  [q EXCEPT !.hcc = p.hcc]} :
            (x = q) \/ CellFails(s.cfg, Now, x) # {}
\* algebra of the operators
Operators == (Running /\ Due(s) = "state") =>
  LET c == s.cfg
      vs == <<1, 2, 5>>
      z == Lev(c, Now, vs)
      d == Thick(z)
      q == Column(c, Now, vs)
      one == Lay(c, LAMBDA k, b, a: "1")
      du == TLCEval(Up(d, one, c.n))
      u == TLCEval(Up(d, q.f, c.n))
      dn == FromTop(u, "0")
      p == <<"1", "-2", "5">>
  IN  /\ \A k \in 1..c.n: \A a \in 1..3: RLt("0", d[k][a])
      /\ \A a \in 1..3: RClose(du[2*c.n + 1][a], RAdd(c.h[vs[a]], Eta(c, Now, vs[a])), "1e-20", "1e-20")
      /\ \A i \in 1..Len(u): \A a \in 1..3: RClose(RSub(u[i][a], dn[i][a]), u[Len(u)][a], "1e-18", "1e-18")
      /\ \A a \in 1..3: RClose(Avg(Share(c), one, c.n)[a], "1", "1e-20", "0")
      /\ Prod(p, Tri("3")) = [a \in 1..3 |-> RMul("3", p[a])]
      \* the mean of the product is that of the polynomial
      /\ RClose(Mean3(Prod(p, <<"2", "0", "1">>)), RDiv(RSum([m \in 1..9 |-> LET i == 1 + ((m - 1) \div 3)  j == 1 + ((m - 1) % 3)
                     IN RMul(RMul(p[i], <<"2", "0", "1">>[j]), IF i = j THEN "2" ELSE "1")]), "12"), "1e-18", "0")
      \* the flow does not cross the bed
      /\ FlatU(Now) => LET x == [a \in 1..3 |-> VX(c, vs[a])]  y == [a \in 1..3 |-> VY(c, vs[a])]
                           hh == [a \in 1..3 |-> c.h[vs[a]]]
                       IN  \A a \in 1..3: RClose(RAdd(q.w[1][1][a],
                               RAdd(RMul(RAdd(q.u[1][1][1][a], q.ud[1][1][1][a]), GradX(x, y, hh)),
                                    RMul(RAdd(q.u[2][1][1][a], q.ud[2][1][1][a]), GradY(x, y, hh)))), "0", "0", "1e-20")
Eos ==
  /\ \A sa \in {"0", "10", "35"}: \A te \in {"5", "10", "25"}:
       /\ RLt(Dens(s.cfg, sa, te), Dens(s.cfg, RAdd(sa, "1"), te))
       /\ RLt(Dens(s.cfg, sa, RAdd(te, "1")), Dens(s.cfg, sa, te))
  \* Jackett et al. (2006): check value without pressure
  /\ RClose(JackettRho("35", "25"), "23.34", "0", "0.1")
====
