---- MODULE RunLoop ----
(***************************************************************************)
(* The time loop of the 2D and 3D solvers (FlowSolver2d.iterate and        *)
(* create_iterator, FlowSolver.iterate): simulation clock, export schedule *)
(* and numbering, callback schedule, as a labelled transition system.      *)
(*                                                                         *)
(* Configuration cfg of a run                                              *)
(*   t0, dtreq, texp, tend rationals: time at the start, requested step, export       *)
(*                        interval, time at which the run has to end       *)
(*   it0, ie0             iteration and export counters at the start       *)
(*   fresh                TRUE: the initial state is exported              *)
(*   fidx                 index of the first file that will be written     *)
(*   old                  indices of files present before the run          *)
(*   hf, vf               fields exported as HDF5/VTK (empty: no exports)  *)
(*   cbs                  callbacks [name, when, lo, hi]; lo, hi rationals *)
(*                        or "none"                                        *)
(*   func, gen            export_func given; run through create_iterator   *)
(*                                                                         *)
(* Observations carried by every event: t, it, ie (clock and counters of   *)
(* the solver object), ver (number of steps applied to the model fields),  *)
(* files (indices of complete exports on disk, per field).                 *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

EPS == "1e-5"
TOL == "1e-7"
Same(a, b) == RClose(a, b, "1e-12", TOL)

(* A run started by load_state (cfg.rs.on): the stored run was fresh, started at 0 with step dt and  *)
(* export interval rs.texp1 and ended at rs.tend1; export rs.i of it is loaded.  rs.t, rs.iter and   *)
(* rs.iexp are the overrides ("none"/-1: inferred), rs.same: outputs go to the stored run's directory. *)
StepsTo(time, dt) == LET k == RCeil(RDiv(RSub(time, EPS), dt)) IN IF k < 0 THEN 0 ELSE k
\* number of steps after which export i of a fresh run starting at 0 is written (dt <= texp)
ExportStep(i, dt, texp) == IF i = 0 THEN 0 ELSE StepsTo(RMul(i, texp), dt)
\* the 3D solver adjusts the requested step to an integer fraction of the export interval
EffDt(c) == IF c.mode = "3d" THEN RDiv(c.texp, RCeil(RDiv(c.texp, c.dtreq))) ELSE R(c.dtreq)
RunInit(cfg00) ==
    LET cfg0 == [x \in DOMAIN cfg00 \cup {"dt"} |-> IF x = "dt" THEN EffDt(cfg00) ELSE cfg00[x]]
        rs == cfg0.rs
        n1 == IF rs.on THEN ExportStep(rs.i, cfg0.dt, rs.texp1) ELSE 0
        last == IF rs.on THEN RMul(StepsTo(rs.tend1, cfg0.dt), cfg0.dt) ELSE "0"
        nold == IF rs.on /\ rs.same THEN 1 + RFloor(RDiv(RAdd(last, EPS), rs.texp1)) ELSE 0
        ie == IF ~rs.on THEN cfg0.ie0 ELSE IF rs.iexp >= 0 THEN rs.iexp ELSE rs.i
        tt == IF ~rs.on THEN R(cfg0.t0) ELSE IF rs.t # "none" THEN R(rs.t) ELSE RMul(n1, cfg0.dt)
        cfg == IF ~rs.on THEN cfg0
               ELSE [cfg0 EXCEPT !.t0 = tt, !.ie0 = ie, !.ver0 = n1, !.fresh = ~rs.same,
                       !.it0 = IF rs.iter >= 0 THEN rs.iter
                               ELSE RCeil(RDiv(RMul(ie, cfg0.texp), cfg0.dt)),
                       !.fidx = IF rs.same THEN ie + 1 ELSE ie,
                       !.old = [i \in 1..nold |-> i - 1]]
    IN
    [c |-> cfg, ph |-> "init", n |-> 0, t |-> tt, it |-> cfg.it0, ie |-> ie, ver |-> cfg.ver0,
     \* the 3D solver keeps the absolute schedule after a restart, the 2D solver counts from its start
     next |-> IF rs.on /\ cfg.mode = "3d" THEN RMul(ie + 1, cfg.texp) ELSE RAdd(tt, cfg.texp),
     fi |-> cfg.fidx,
     have |-> {cfg.old[i] : i \in 1..Len(cfg.old)},
     todo |-> {}, log |-> <<>>, cbn |-> 0]

InWindow(cb, t) ==
    /\ cb.lo = "none" \/ RLe(cb.lo, t)
    /\ cb.hi = "none" \/ RLe(t, cb.hi)

CbSet(s, when, t) == {i \in 1..Len(s.c.cbs) : s.c.cbs[i].when = when /\ InWindow(s.c.cbs[i], t)}

More(s) == RLe(s.t, RSub(s.c.tend, EPS))
Due(s) == RLe(RSub(s.next, EPS), s.t)
Exporting(s) == Len(s.c.hf) + Len(s.c.vf) > 0

\* an export becomes due: callbacks first, then every field is written once, then export_func
StartExport(s) == [s EXCEPT !.ph = "expcb", !.todo = CbSet(s, "export", s.t)]
WriteAll(s) ==
    [s EXCEPT !.ph = IF s.c.func THEN "func" ELSE "idle",
              !.have = IF Exporting(s) THEN @ \cup {s.fi} ELSE @,
              !.fi = IF Exporting(s) THEN @ + 1 ELSE @,
              !.log = Append(@, [idx |-> s.fi, t |-> s.t, ver |-> s.ver])]
\* silent bookkeeping: leave phases that have nothing left to wait for
Settle(s0) ==
    LET s1 == IF s0.ph = "stepcb" /\ s0.todo = {}
              THEN IF Due(s0)
                   THEN StartExport([s0 EXCEPT !.ie = @ + 1, !.next = RAdd(@, s0.c.texp)])
                   ELSE [s0 EXCEPT !.ph = "idle"]
              ELSE s0
        s2 == IF s1.ph = "expcb" /\ s1.todo = {} THEN WriteAll(s1) ELSE s1
    IN s2

EndStep(s) ==
    LET m == s.n + 1
        t1 == RAdd(s.c.t0, RMul(m, s.c.dt))
        s1 == [s EXCEPT !.n = m, !.t = t1, !.it = @ + 1, !.ph = "stepcb"]
    IN  Settle([s1 EXCEPT !.todo = CbSet(s1, "timestep", t1)])

Cl(c, n) == IF c THEN {} ELSE {n}

\* clauses on the observations of an event made in state s
Obs(s, e) ==
    Cl(Same(e.t, s.t), "clock_time") \cup
    Cl(e.it = s.it, "iteration_count") \cup
    Cl(e.ie = s.ie, "export_counter") \cup
    Cl(e.ver = s.ver, "state_version") \cup
    Cl(\A i \in 1..Len(e.files) : {e.files[i][j] : j \in 1..Len(e.files[i])} = s.have, "files_on_disk")

\* the state in which the observations of e are made
Pre(s, e) == IF e.ev = "advance" \/ e.ev = "end" THEN s
             ELSE IF s.ph = "advanced" /\ e.ev # "yield" THEN EndStep(s) ELSE s

Names(s) == {s.c.cbs[i].name : i \in s.todo}

RunFails(s, e) ==
    CASE e.ev = "begin" ->
           Cl(s.ph = "init", "order_begin") \cup Obs(s, e)
      [] e.ev = "advance" ->
           LET p == IF s.ph = "advanced" THEN EndStep(s) ELSE s IN
           Cl(p.ph = "idle", "step_before_obligations_" \o p.ph) \cup
           Cl(More(p), "step_after_end_time") \cup
           Cl(Same(e.t, p.t), "step_start_time") \cup Cl(Same(e.targ, p.t), "step_time_argument") \cup
           (IF p.ph = "idle" THEN Obs(p, e) ELSE {})
      [] e.ev = "yield" ->
           Cl(s.ph = "advanced" /\ s.c.gen, "yield_order") \cup Cl(Same(e.val, s.t), "yield_value")
      [] e.ev = "cb" ->
           LET p == Pre(s, e) IN
           Cl(p.ph \in {"stepcb", "expcb"} /\ e.name \in Names(p), "callback_not_due") \cup Obs(p, e)
      [] e.ev = "func" ->
           LET p == Pre(s, e) IN
           Cl(p.ph = "func", "export_func_not_due") \cup Obs(p, e)
      [] e.ev = "end" ->
           LET p == IF s.ph = "advanced" THEN EndStep(s) ELSE s IN
           Cl(p.ph = "idle", "end_before_obligations_" \o p.ph) \cup
           Cl(~More(p), "stopped_before_end_time") \cup
           (IF p.ph = "idle" THEN Obs(p, e) ELSE {})
      [] e.ev = "file" ->    \* contents of an exported HDF5 file, after the run
           LET k == {i \in 1..Len(s.log) : s.log[i].idx = e.idx} IN
           Cl(s.ph = "ended", "order_file") \cup
           Cl(k # {} /\ Exporting(s), "file_index") \cup
           (IF k = {} THEN {} ELSE LET r == s.log[CHOOSE i \in k : TRUE] IN
              Cl(Same(e.t, r.t), "file_time") \cup Cl(e.ver = r.ver, "file_state") \cup
              Cl(e.date = s.c.date, "file_date"))
      [] OTHER -> {"unknown_event_" \o e.ev}

RunApply(s, e) ==
    CASE e.ev = "begin" ->
           IF s.c.fresh THEN Settle(StartExport(s)) ELSE [s EXCEPT !.ph = "idle"]
      [] e.ev = "advance" ->
           LET p == IF s.ph = "advanced" THEN EndStep(s) ELSE s IN
           [p EXCEPT !.ph = "advanced", !.ver = @ + 1]
      [] e.ev = "yield" -> s
      [] e.ev = "cb" ->
           LET p == Pre(s, e)
               k == CHOOSE i \in p.todo : p.c.cbs[i].name = e.name
           IN Settle([p EXCEPT !.todo = @ \ {k}, !.cbn = @ + 1])
      [] e.ev = "func" -> [Pre(s, e) EXCEPT !.ph = "idle"]
      [] e.ev = "end" -> [(IF s.ph = "advanced" THEN EndStep(s) ELSE s) EXCEPT !.ph = "ended"]
      [] OTHER -> s

RunFinal(s) == Cl(s.ph = "ended", "run_incomplete")

(***************************************************************************)
(* State invariants (checked on the model and on every recorded trace).    *)
(***************************************************************************)
\* the export schedule is anchored at the start time
Aligned(s) == s.c.mode = "2d" \/ ~s.c.rs.on \/ s.c.t0 = RMul(s.c.ie0, s.c.texp)
\* time at which the j-th entry of the log had to be written if dt <= texp
RunInvFails(s) ==
    Cl(s.t = RAdd(s.c.t0, RMul(s.n, s.c.dt)), "inv_clock") \cup
    Cl(s.it = s.c.it0 + s.n, "inv_iteration") \cup
    Cl(\A i \in 1..Len(s.log) - 1 : /\ (Exporting(s) => s.log[i + 1].idx = s.log[i].idx + 1)
                                    /\ RLt(s.log[i].t, s.log[i + 1].t), "inv_export_order") \cup
    Cl(RLe(s.c.dt, s.c.texp) /\ Aligned(s) =>
         \A i \in 1..Len(s.log) :
           LET k == IF s.c.fresh THEN i - 1 ELSE i
               due == RAdd(s.c.t0, RMul(k, s.c.texp))
           IN /\ RLe(RSub(due, EPS), s.log[i].t)
              /\ RLt(RSub(s.log[i].t, s.c.dt), RSub(due, EPS)) \/ k = 0, "inv_export_first_step") \cup
    Cl(s.ph = "ended" =>
         /\ RLt(RSub(s.c.tend, EPS), s.t)
         /\ s.n = 0 \/ RLe(RSub(s.t, s.c.dt), RSub(s.c.tend, EPS)), "inv_end") \cup
    Cl(s.ph = "ended" /\ RLe(s.c.dt, s.c.texp) /\ Aligned(s) =>
         Len(s.log) = RFloor(RDiv(RAdd(RSub(s.t, s.c.t0), EPS), s.c.texp)) + (IF s.c.fresh THEN 1 ELSE 0),
       "inv_export_count")

(***************************************************************************)
(* The events the specification allows in state s (for model checking).    *)
(***************************************************************************)
\* the oldest first: files per field
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SetSeq(S \ {x})
ObsOf(p, name) ==
    [ev |-> name, t |-> p.t, it |-> p.it, ie |-> p.ie, ver |-> p.ver, name |-> "", targ |-> p.t, val |-> p.t,
     idx |-> 0, date |-> p.c.date,
     files |-> [i \in 1..Len(p.c.hf) |-> SetSeq(p.have)]]

Emits(s) ==
    LET p == IF s.ph = "advanced" THEN EndStep(s) ELSE s IN
    (IF s.ph = "init" THEN {ObsOf(s, "begin")} ELSE {}) \cup
    (IF p.ph = "idle" /\ More(p) THEN {ObsOf(p, "advance")} ELSE {}) \cup
    (IF p.ph = "idle" /\ ~More(p) THEN {ObsOf(p, "end")} ELSE {}) \cup
    (IF p.ph \in {"stepcb", "expcb"} THEN {[ObsOf(p, "cb") EXCEPT !.name = x] : x \in Names(p)} ELSE {}) \cup
    (IF p.ph = "func" THEN {ObsOf(p, "func")} ELSE {})

\* single-field corruptions of an event: every one of them has to be rejected
Corrupt(e) ==
    {[e EXCEPT !.t = RAdd(@, 1)], [e EXCEPT !.it = @ + 1], [e EXCEPT !.ie = @ + 1], [e EXCEPT !.ver = @ + 1]} \cup
    (IF e.ev = "advance" THEN {[e EXCEPT !.targ = RAdd(@, 1)], [e EXCEPT !.ev = "end"]} ELSE {}) \cup
    (IF e.ev = "end" THEN {[e EXCEPT !.ev = "advance"], [e EXCEPT !.ev = "func"]} ELSE {}) \cup
    (IF e.ev = "cb" THEN {[e EXCEPT !.name = "unknown"], [e EXCEPT !.ev = "func"], [e EXCEPT !.ev = "advance"]} ELSE {})
====
