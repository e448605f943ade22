---- MODULE Diagnostics ----
(***************************************************************************)
(* Diagnostic callbacks and their HDF5 series.                             *)
(*                                                                         *)
(* The fields are affine on the rectangle [0,Lx]x[0,Ly] (coefficients      *)
(* <<a, b, c>>: a + b*x + c*y, or with a fourth coefficient of z), so that *)
(* every diagnostic has an exact value.                                    *)
(*                                                                         *)
(* cfg   Lx, Ly, dt                                                        *)
(* event field  name, v: coefficients (tr2, nodal fields: all values)      *)
(*       new    cb, kind, par, lo, hi ("none"), append, file ("none": no   *)
(*              HDF5 output), names, single (precision)                    *)
(*       mode   cb, append                                                 *)
(*       eval   cb, t, idx (-1: none), ran, files: contents of all files,  *)
(*              acc: accumulated value ("none")                            *)
(*                                                                         *)
(* A file is a sequence of entries [t, v]; v is one sequence of numbers    *)
(* per variable.  A callback creates its file at its first evaluation,     *)
(* unless it appends to an existing one; entries are appended, or replace  *)
(* the entry with the given index if there is one.                         *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

Cl(c, n) == IF c THEN {} ELSE {n}
ToSet(q) == {q[i] : i \in 1..Len(q)}
Map(q, f(_)) == [i \in 1..Len(q) |-> f(q[i])]
MaxOf(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)
MinOf(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)

\* ---- exact calculus on the rectangle ----
At2(f, x, y) == RSum(<<f[1], RMul(f[2], x), RMul(f[3], y)>>)
At3(f, x, y, z) == RAdd(At2(f, x, y), RMul(f[4], z))
Plus(f, g) == [i \in 1..3 |-> RAdd(f[i], g[i])]
Int2(c, f, g) ==       \* integral of f*g
    LET X == c.Lx
        Y == c.Ly
        M == <<<<"1", RDiv(X, 2), RDiv(Y, 2)>>,
               <<RDiv(X, 2), RDiv(RMul(X, X), 3), RDiv(RMul(X, Y), 4)>>,
               <<RDiv(Y, 2), RDiv(RMul(X, Y), 4), RDiv(RMul(Y, Y), 3)>>>>
    IN  RMul(RMul(X, Y), RSum([i \in 1..3 |-> RMul(f[i], RDot(M[i], <<g[1], g[2], g[3]>>))]))
One == <<"1", "0", "0">>
Corners(c) == {<<x, y>> : x \in {"0", c.Lx}, y \in {"0", c.Ly}}
Dep(F) == Plus(F.elev_2d, F.bathymetry_2d)
Mass3(c, F, f) == RAdd(Int2(c, f, Dep(F)),
                       RMul(RDiv(f[4], 2), RSub(Int2(c, F.elev_2d, F.elev_2d), Int2(c, F.bathymetry_2d, F.bathymetry_2d))))

\* ---- the diagnostics: the quantity, and the values that are stored ----
Scalar(c, F, cb) ==
    CASE cb.kind = "volume2d" -> Int2(c, Dep(F), One)
      [] cb.kind = "volume3d" -> Int2(c, Dep(F), One)
      [] cb.kind = "mass2d" -> Int2(c, F[cb.par.field], Dep(F))
      [] cb.kind = "consmass2d" -> Int2(c, F[cb.par.field], One)
      [] cb.kind = "mass3d" -> Mass3(c, F, F[cb.par.field])
      [] cb.kind = "accumulator" -> F.scalar
MinMax(c, F, cb) ==
    LET f == F[cb.par.field]
        S == IF cb.kind = "overshoot" /\ cb.par.nodal THEN {R(f[i]) : i \in 1..Len(f)}
             ELSE IF Len(f) = 3 THEN {At2(f, p[1], p[2]) : p \in Corners(c)}
             ELSE UNION {{At3(f, p[1], p[2], At2(F.elev_2d, p[1], p[2])),
                          At3(f, p[1], p[2], RNeg(At2(F.bathymetry_2d, p[1], p[2])))} : p \in Corners(c)}
    IN  <<MinOf(S), MaxOf(S)>>
\* components of a field at a point
Comps(F, name, x, y) == LET f == F[name] IN IF name = "uv_2d" THEN <<At2(f[1], x, y), At2(f[2], x, y)>> ELSE <<At2(f, x, y)>>
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

ScalarKinds == {"volume2d", "volume3d", "mass2d", "consmass2d", "mass3d"}
Near(x, y, cb) == IF cb.single THEN RClose(x, y, "2e-6", "1e-6") ELSE RClose(x, y, "1e-9", "1e-9")
NearSeq(a, b, cb) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], cb)

\* values stored by a callback with memory m: one sequence per variable
Values(c, F, cb, m) ==
    CASE cb.kind \in ScalarKinds ->
           LET v == Scalar(c, F, cb)
               v0 == IF m.has THEN m.v0 ELSE <<v>>
           IN  <<<<v>>, <<RDiv(RSub(v, v0[1]), v0[1])>>>>
      [] cb.kind = "overshoot" ->
           LET v == MinMax(c, F, cb)
               v0 == IF m.has THEN m.v0 ELSE v
           IN  <<<<v[1]>>, <<v[2]>>, <<RMin("0", RSub(v[1], v0[1]))>>, <<RMax("0", RSub(v[2], v0[2]))>>>>
      [] cb.kind = "accumulator" -> <<<<F.scalar>>>>
      [] cb.kind = "custom" -> F.series
      [] cb.kind = "detectors" ->
           [k \in 1..Len(cb.par.xy) |->
              Flat([j \in 1..Len(cb.par.fields) |-> Comps(F, cb.par.fields[j], cb.par.xy[k][1], cb.par.xy[k][2])])]
      [] cb.kind = "timeseries2d" ->
           [j \in 1..Len(cb.par.fields) |-> Comps(F, cb.par.fields[j], cb.par.x, cb.par.y)]
      [] cb.kind = "timeseries3d" ->
           LET bed == RNeg(At2(F.bathymetry_2d, cb.par.x, cb.par.y))
               z == IF RLt(cb.par.z, bed) THEN RAdd(bed, "1/10") ELSE cb.par.z
           IN  [j \in 1..Len(cb.par.fields) |-> <<At3(F[cb.par.fields[j]], cb.par.x, cb.par.y, z)>>]
      [] OTHER -> <<>>

\* profiles and transects: the points lie (up to eps) where they should, the values belong to the points
ProfileOk(F, cb, v) ==
    LET n == cb.par.n
        K == Len(cb.par.x)
        top(k) == At2(F.elev_2d, cb.par.x[k], cb.par.y[k])
        bot(k) == RNeg(At2(F.bathymetry_2d, cb.par.x[k], cb.par.y[k]))
        top1(k) == IF cb.par.zmax = "none" THEN top(k) ELSE RMin(top(k), cb.par.zmax)
        bot1(k) == IF cb.par.zmin = "none" THEN bot(k) ELSE RMax(bot(k), cb.par.zmin)
        z(i, k) == v[1][(i - 1)*K + k]
    IN  /\ Len(v) = 1 + Len(cb.par.fields)
        /\ \A j \in 1..Len(v) : Len(v[j]) = n*K
        /\ \A i \in 1..n, k \in 1..K :
             /\ RClose(z(i, k), RAdd(top1(k), RMul(RSub(bot1(k), top1(k)), RDiv(i - 1, n - 1))), "0", "0.011")
             /\ \A j \in 1..Len(cb.par.fields) :
                  Near(v[j + 1][(i - 1)*K + k], At3(F[cb.par.fields[j]], cb.par.x[k], cb.par.y[k], z(i, k)), cb)

ValuesOk(c, F, cb, m, v) ==
    IF cb.kind \in {"profile", "transect"} THEN ProfileOk(F, cb, v)
    ELSE LET w == Values(c, F, cb, m) IN Len(v) = Len(w) /\ \A i \in 1..Len(w) : NearSeq(v[i], w[i], cb)

\* ---- the series ----
InWindow(cb, t) == (cb.lo = "none" \/ RLe(cb.lo, t)) /\ (cb.hi = "none" \/ RLe(t, cb.hi))

\* contents of the file of cb before the entry is written
Before(s, cb, m) == IF cb.file \in DOMAIN s.files /\ (m.open \/ cb.append) THEN s.files[cb.file] ELSE <<>>
Pos(old, idx) == IF idx >= 0 /\ idx < Len(old) THEN idx + 1 ELSE Len(old) + 1

DInit(c) == [c |-> c, F |-> [x \in {} |-> 0], cbs |-> [x \in {} |-> 0], mem |-> [x \in {} |-> 0],
             files |-> [x \in {} |-> 0], n |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Fresh == [has |-> FALSE, v0 |-> <<>>, open |-> FALSE, acc |-> "0", old |-> "none"]

SameEntry(a, b) == R(a.t) = R(b.t) /\ a.v = b.v

DFails(s, e) ==
    CASE e.ev \in {"field", "new", "mode"} -> {}
      [] e.ev = "meta" -> Cl(e.ok, "attributes")
      [] e.ev = "eval" ->
           LET cb == s.cbs[e.cb]
               m == s.mem[e.cb]
               on == InWindow(cb, e.t)
               fl == [k \in {e.files[i].name : i \in 1..Len(e.files)} |->
                        (CHOOSE i \in 1..Len(e.files) : e.files[i].name = k)]
               content(f) == e.files[fl[f]].entries
               others == {f \in DOMAIN s.files : f # cb.file}
               acc == IF m.old = "none" THEN "0"
                      ELSE RAdd(m.acc, RMul(s.c.dt, RDiv(RAdd(m.old, s.F.scalar), 2)))
           IN  Cl(e.ran = on, "window")
               \cup Cl(\A f \in others : f \in DOMAIN fl /\ Len(content(f)) = Len(s.files[f])
                         /\ \A i \in 1..Len(s.files[f]) : SameEntry(content(f)[i], s.files[f][i]), "other_series_changed")
               \cup (IF cb.file = "none" THEN {}
                     ELSE IF ~on
                     THEN IF cb.file \in DOMAIN s.files
                          THEN Cl(cb.file \in DOMAIN fl /\ content(cb.file) = s.files[cb.file], "series_changed")
                          ELSE Cl(cb.file \notin DOMAIN fl, "series_created")
                     ELSE IF cb.file \notin DOMAIN fl THEN {"no_series"}
                     ELSE LET old == Before(s, cb, m)
                              p == Pos(old, e.idx)
                              new == content(cb.file)
                          IN  IF Len(new) # (IF p > Len(old) THEN p ELSE Len(old)) THEN {"series_length"}
                              ELSE Cl(\A i \in 1..Len(new) : i # p => SameEntry(new[i], old[i]), "old_entries_changed")
                                   \cup Cl(Near(new[p].t, e.t, cb), "entry_time")
                                   \cup Cl(ValuesOk(s.c, s.F, cb, m, new[p].v), "entry_values")
                                   \cup Cl(e.files[fl[cb.file]].names = cb.names, "variable_names"))
               \cup (IF cb.kind = "accumulator" /\ on THEN Cl(RClose(e.acc, acc, "1e-10", "1e-10"), "accumulated") ELSE {})
      [] OTHER -> {"unknown_event"}

DApply(s, e) ==
    CASE e.ev = "field" -> [s EXCEPT !.F = Put(@, e.name, e.v)]
      [] e.ev = "new" -> [s EXCEPT !.cbs = Put(@, e.cb, e), !.mem = Put(@, e.cb, Fresh)]
      [] e.ev = "mode" -> [s EXCEPT !.cbs[e.cb].append = e.append]
      [] e.ev = "meta" -> s
      [] e.ev = "eval" ->
           LET cb == s.cbs[e.cb]
               m == s.mem[e.cb]
           IN  IF ~InWindow(cb, e.t) THEN [s EXCEPT !.n = @ + 1]
               ELSE [s EXCEPT !.n = @ + 1,
                       !.mem[e.cb] =
                          [has |-> TRUE, open |-> TRUE,
                           v0 |-> IF m.has THEN m.v0
                                  ELSE IF cb.kind \in ScalarKinds THEN <<Scalar(s.c, s.F, cb)>>
                                  ELSE IF cb.kind = "overshoot" THEN MinMax(s.c, s.F, cb) ELSE <<>>,
                           acc |-> IF cb.kind = "accumulator" /\ m.old # "none"
                                   THEN RAdd(m.acc, RMul(s.c.dt, RDiv(RAdd(m.old, s.F.scalar), 2))) ELSE m.acc,
                           old |-> IF cb.kind = "accumulator" THEN R(s.F.scalar) ELSE "none"],
                       !.files = IF cb.file = "none" THEN @
                                 ELSE Put(@, cb.file, e.files[CHOOSE i \in 1..Len(e.files) : e.files[i].name = cb.file].entries)]
DInvFails(s) == {}
DFinal(s) == Cl(s.n > 0, "run_incomplete")
====
