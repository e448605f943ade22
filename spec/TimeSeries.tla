---- MODULE TimeSeries ----
(***************************************************************************)
(* Time series stored in a collection of netCDF files (interpolation.py):  *)
(* time stamps and their units, search of the previous/next stamp over all *)
(* files, linear interpolation in time with cached data.                   *)
(*                                                                         *)
(* cfg  init    epoch time (s) of the simulation's initial date            *)
(*      files   sequence of [base, unit, stamps, data]: stamps are counted *)
(*              in units of "unit" seconds from epoch time "base";         *)
(*              data[i] is the sequence of values at stamps[i]             *)
(*      scalars factors of the variables (<<>>: none)                      *)
(*      daily   TRUE: one stamp per file, taken from the file name         *)
(* All stamps of all files are distinct; files do not interleave, but are  *)
(* listed in any order.                                                    *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

TOL == "1e-6"
Cl(c, n) == IF c THEN {} ELSE {n}

Epoch(f, i) == RAdd(f.base, RMul(f.unit, f.stamps[i]))
\* all stamps as records, relative to the initial date
AllStamps(c) == UNION {{[f |-> k, i |-> i, t |-> RSub(Epoch(c.files[k], i), c.init)]
                         : i \in 1..Len(c.files[k].stamps)} : k \in 1..Len(c.files)}

\* the last stamp at or before t; the first stamp after t (a stamp within the tolerance counts as before)
Prev(all, t) == LET S == {x \in all : RLt(x.t, RAdd(t, TOL))}
                IN  IF S = {} THEN {} ELSE {x \in S : \A y \in S : RLe(y.t, x.t)}
Nxt(all, t) == LET S == {x \in all : RLe(RAdd(t, TOL), x.t)}
               IN  IF S = {} THEN {} ELSE {x \in S : \A y \in S : RLe(x.t, y.t)}
The(S) == CHOOSE x \in S : TRUE

TSInit(c) == [c |-> c, all |-> AllStamps(c), n |-> 0]

Value(s, x, v) == R(s.c.files[x.f].data[x.i][v])
Interp(s, t, v) ==
    LET p == The(Prev(s.all, t))
        q == The(Nxt(s.all, t))
        al == RDiv(RSub(t, p.t), RSub(q.t, p.t))
        x == RAdd(Value(s, p, v), RMul(al, RSub(Value(s, q, v), Value(s, p, v))))
    IN  IF Len(s.c.scalars) = 0 THEN x ELSE RMul(s.c.scalars[v], x)
NVar(s) == Len(s.c.files[1].data[1])
\* queries at the very last stamp have no next stamp; whether they succeed is not specified
AtEnd(all, t) == \E x \in all : RClose(x.t, t, "0", "1e-5") /\ \A y \in all : RLe(y.t, x.t)
InRange(s, t) == Prev(s.all, t) # {} /\ Nxt(s.all, t) # {}

TSFails(s, e) ==
    CASE e.ev = "find" ->
           LET S == IF e.prev THEN Prev(s.all, e.t) ELSE Nxt(s.all, e.t)
               x == The(S)
           IN  IF ~e.prev /\ AtEnd(s.all, e.t) THEN {}
               ELSE IF S = {}
               THEN Cl(e.res = "err", "find_out_of_range_accepted")
               ELSE IF e.res # "ok"
               THEN {"find_failed"}
               ELSE Cl(e.file = x.f, "find_file") \cup Cl(e.i = x.i - 1, "find_index")
                    \cup Cl(RClose(e.time, x.t, "1e-9", "1e-5"), "find_time")
      [] e.ev = "interp" ->
           IF AtEnd(s.all, e.t) THEN {}
           ELSE IF ~InRange(s, e.t) THEN Cl(e.res = "err", "interp_out_of_range_accepted")
           ELSE IF e.res # "ok" THEN {"interp_failed"}
           ELSE Cl(Len(e.v) = NVar(s), "interp_variables")
                \cup (IF Len(e.v) # NVar(s) THEN {}
                      ELSE Cl(\A v \in 1..Len(e.v) : RClose(e.v[v], Interp(s, e.t, v), "1e-9", "1e-7"), "interp_value"))
      [] e.ev = "parser" ->
           LET f == s.c.files[e.file] n == Len(f.stamps) IN
           Cl(e.nb = n, "parser_steps")
           \cup Cl(RClose(e.start, Epoch(f, 1), "0", "2e-6") /\ RClose(e.end, Epoch(f, n), "0", "2e-6"), "parser_span")
      [] e.ev = "stamp" ->     \* NetCDFTimeParser.find_time_stamp within one file
           LET all == {x \in s.all : x.f = e.file}
               t == RSub(e.t, s.c.init)
               S == IF e.prev THEN Prev(all, t) ELSE Nxt(all, t)
           IN  IF ~e.prev /\ AtEnd(all, t) THEN {}
               ELSE IF S = {} THEN Cl(e.res = "err", "stamp_out_of_range_accepted")
               ELSE Cl(e.res = "ok" /\ e.i = The(S).i - 1, "stamp_index")
      [] e.ev = "todate" -> Cl(RClose(e.epoch, RAdd(s.c.init, e.t), "0", "2e-6"), "simulation_time_to_datetime")
      [] OTHER -> {"unknown_event"}
TSApply(s, e) == [s EXCEPT !.n = @ + 1]
TSInvFails(s) == {}
TSFinal(s) == Cl(s.n > 0, "run_incomplete")
====
