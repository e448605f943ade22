---- MODULE Coupled2D ----
(***************************************************************************)
(* One time step of the coupled 2D model (GeneralCoupledTimeIntegrator2D,  *)
(* NonHydrostaticTimeIntegrator2D as used by FlowSolver2d).                *)
(*                                                                         *)
(* Components: "swe" (shallow water), tracer systems, "sediment", "exner", *)
(* and, in non-hydrostatic runs, "poisson" (pressure) and "fs" (free       *)
(* surface).  The code is executed with components that add a known amount *)
(* to their field, so that the values each component sees determine which  *)
(* components ran before it:                                               *)
(*   swe: uv + 1, elev + 16;  tracers, sediment, exner: own field + 1;     *)
(*   limiter: field + 1/8;  poisson: uv + 1/4, q + 1;  fs: elev + 1        *)
(*                                                                         *)
(* cfg: systems <<[name, labels]>>, p (Picard iterations of the tracers),  *)
(*   lim, deg, sed, exner, tracerOnly, nh, upd, swe, fst (time stepper     *)
(*   types), steps, t0, dt                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat, TLC
LOCAL Cl(c, n) == IF c THEN {} ELSE {n}

Stages(type) == CASE type = "SSPRK33" -> 3 [] type = "BackwardEuler" -> 1 [] type = "DIRK22" -> 2
                  [] type = "DIRK33" -> 3 [] OTHER -> 0
\* the integrators that the time stepper options name
ClassOf(type) == CASE type = "SSPRK33" -> "SSPRK33Abstract" [] type = "BackwardEuler" -> "BackwardEulerAbstract"
                   [] type = "DIRK22" -> "DIRK22Abstract" [] type = "DIRK33" -> "DIRK33Abstract"
                   [] type = "SSPIMEX" -> "IMEXLPUM2" [] OTHER -> type
SysNames(c) == {c.systems[i].name : i \in 1..Len(c.systems)}
LabelsOf(c, y) == LET i == CHOOSE i \in 1..Len(c.systems) : c.systems[i].name = y
                  IN  {c.systems[i].labels[k] : k \in 1..Len(c.systems[i].labels)}
\* tracer systems added before system y
Before(c, y) == LET i == CHOOSE i \in 1..Len(c.systems) : c.systems[i].name = y
                IN  {c.systems[j].name : j \in 1..(i - 1)}
AllLabels(c) == UNION {LabelsOf(c, y) : y \in SysNames(c)}
Lim(c) == c.lim /\ c.deg > 0
Comps(c) == SysNames(c) \cup (IF c.tracerOnly THEN {} ELSE {"swe"})
            \cup (IF c.sed THEN {"sediment"} ELSE {}) \cup (IF c.exner THEN {"exner"} ELSE {})
            \cup (IF c.nh /\ c.upd THEN {"fs"} ELSE {})
SedModel(c) == c.sed \/ c.exner
FieldNames(c) == {"uv", "elev", "bed", "sediment_2d", "q"} \cup AllLabels(c)
\* stages at which the non-hydrostatic step works: 0 means the whole step at once
NhStages(c) == Stages(c.swe)
FsStages(c) == IF Stages(c.fst) > 0 /\ c.fst # "BackwardEuler" THEN Stages(c.fst) ELSE 0

\* repetitions of the solve of a component within a step
Reps(c, x) == IF x \in SysNames(c) THEN c.p
              ELSE IF c.nh /\ x = "swe" THEN (IF NhStages(c) > 0 THEN NhStages(c) ELSE 1)
              ELSE IF c.nh /\ x = "fs" THEN (IF NhStages(c) > 0 /\ FsStages(c) > 0 THEN NhStages(c) ELSE 1)
              ELSE 1
Zero(S) == [x \in S |-> 0]
CInit(c) == [c |-> c, val |-> [f \in FieldNames(c) |-> IF f = "elev" THEN R(c.elev0) ELSE "0"],
             cnt |-> Zero(Comps(c)), limc |-> Zero(AllLabels(c) \cup {"sediment_2d"}),
             pois |-> 0, sm |-> FALSE, init |-> {}, n |-> 0, elevOld |-> R(c.elev0)]

Saw(s, e) == DOMAIN e.saw = DOMAIN s.val /\ \A f \in DOMAIN s.val : R(e.saw[f]) = s.val[f]
Now(s) == RAdd(s.c.t0, RMul(s.n, s.c.dt))
\* the solves of component x so far have been limited
Limited(s, x) == Lim(s.c) => IF x = "sediment" THEN s.limc["sediment_2d"] = s.cnt[x]
                             ELSE \A l \in LabelsOf(s.c, x) : s.limc[l] = s.cnt[x]
SweDone(s) == s.c.tracerOnly \/ s.cnt["swe"] = Reps(s.c, "swe")
TracersDone(s) == \A y \in SysNames(s.c) : s.cnt[y] = s.c.p /\ Limited(s, y)
Complete(s) == /\ \A x \in DOMAIN s.cnt : s.cnt[x] = Reps(s.c, x)
               /\ TracersDone(s)
               /\ s.c.sed => Limited(s, "sediment")
               /\ SedModel(s.c) => s.sm
               /\ s.c.nh => s.pois = Reps(s.c, "swe")
Fresh(s) == \A x \in DOMAIN s.cnt : s.cnt[x] = 0

AdvFails(s, e) ==
    LET c == s.c x == e.comp k == s.cnt[x] IN
    Cl(s.init = Comps(c), "initialized_before_first_step")
    \cup Cl(RClose(e.t, Now(s), "1e-12", "1e-9"), "time_argument")
    \cup Cl(e.forc, "update_forcings_passed")
    \cup Cl(k < Reps(c, x), "solved_once")
    \cup Cl(IF x = "fs" THEN Saw([s EXCEPT !.val = [@ EXCEPT !["elev"] = s.elevOld]], e) ELSE Saw(s, e), "state_seen")
    \cup (CASE x = "swe" -> Cl(\A y \in SysNames(c) : s.cnt[y] = 0, "hydrodynamics_first")
                           \cup Cl(c.nh => s.pois = k /\ (c.upd => FsStages(c) = 0 \/ NhStages(c) = 0 \/ s.cnt["fs"] = k),
                                   "stage_order")
                           \cup (IF c.nh /\ NhStages(c) > 0 THEN Cl(e.m = "stage" /\ e.i = k, "stage")
                                 ELSE Cl(e.m = "advance", "method"))
            [] x = "fs" -> Cl(s.pois = s.cnt["swe"] /\ s.pois > 0, "stage_order")
                           \cup (IF NhStages(c) > 0 /\ FsStages(c) > 0
                                 THEN Cl(e.m = "stage" /\ e.i = k /\ s.pois = k + 1, "stage")
                                 ELSE Cl(e.m = "advance" /\ s.cnt["swe"] = Reps(c, "swe"), "stage"))
            [] x = "sediment" -> Cl(SweDone(s), "hydrodynamics_first") \cup Cl(s.sm, "sediment_model_updated")
                           \cup Cl(e.m = "advance", "method")
            [] x = "exner" -> Cl(SweDone(s), "hydrodynamics_first") \cup Cl(s.sm, "sediment_model_updated")
                           \cup Cl(c.sed => s.cnt["sediment"] = 1 /\ Limited(s, "sediment"), "exner_after_sediment")
                           \cup Cl(e.m = "advance", "method")
            [] OTHER -> Cl(SweDone(s), "hydrodynamics_first")
                           \cup Cl(Limited(s, x), "limiter_applied")
                           \cup Cl(\A y \in Before(c, x) : s.cnt[y] = k + 1 /\ Limited(s, y), "tracer_order")
                           \cup Cl(\A y \in SysNames(c) \ (Before(c, x) \cup {x}) : s.cnt[y] = k, "tracer_order")
                           \cup (IF c.p = 1 THEN Cl(e.m = "advance", "method")
                                 ELSE Cl(e.m = "picard" /\ e.lagged = (k = 0) /\ e.last = (k = c.p - 1), "picard_flags")))

CFails(s, e) ==
    CASE e.ev = "init" -> Cl(e.comp \in Comps(s.c), "unexpected_component") \cup Cl(e.own, "initialized_with_own_field")
      [] e.ev = "stepper" -> Cl(\E k \in 1..Len(e.mro) : e.mro[k] = ClassOf(e.want), "time_stepper_type") \cup Cl(RClose(e.dt, s.c.dt, "1e-12", "0"), "component_time_step")
      [] e.ev = "adv" -> IF e.comp \notin Comps(s.c) THEN {"unexpected_component"} ELSE AdvFails(s, e)
      [] e.ev = "limit" ->
            IF ~Lim(s.c) THEN {"limiter_not_requested"}
            ELSE IF e.field \notin DOMAIN s.limc THEN {"limited_field"}
            ELSE LET x == IF e.field = "sediment_2d" THEN "sediment" ELSE
                          CHOOSE y \in SysNames(s.c) : e.field \in LabelsOf(s.c, y)
                 IN  Cl(x \in DOMAIN s.cnt /\ s.limc[e.field] = s.cnt[x] - 1, "limited_after_solve") \cup Cl(Saw(s, e), "state_seen")
      [] e.ev = "sedmodel" ->
            Cl(SedModel(s.c), "unexpected_component") \cup Cl(s.init = Comps(s.c) => Saw(s, e), "state_seen")
      [] e.ev = "poisson" ->
            Cl(s.c.nh /\ s.pois = s.cnt["swe"] - 1, "stage_order") \cup Cl(Saw(s, e), "state_seen")
            \cup Cl(NhStages(s.c) > 0 => e.w = (s.pois + 1 = NhStages(s.c)), "vertical_velocity_in_last_stage")
      [] e.ev = "step" ->
            Cl(Complete(s), "step_complete") \cup Cl(Saw(s, e), "state_after_step")
            \cup Cl(RClose(e.t, RAdd(s.c.t0, RMul(s.n + 1, s.c.dt)), "1e-12", "1e-9"), "time_after_step")
            \cup Cl(s.c.nh /\ s.c.swe = "SSPIMEX" => /\ R(e.old[1]) = s.val["uv"] /\ R(e.old[2]) = s.val["elev"]
                                                     /\ R(e.old[3]) = s.val["uv"] /\ R(e.old[4]) = s.val["elev"], "imex_old_solution")
      [] OTHER -> {"unknown_event"}

Inc(val, fs, x) == [f \in DOMAIN val |-> IF f \in fs THEN RAdd(val[f], x) ELSE val[f]]
CApply(s, e) ==
    CASE e.ev = "init" -> [s EXCEPT !.init = @ \cup {e.comp}]
      [] e.ev = "stepper" -> s
      [] e.ev = "adv" ->
           LET x == e.comp c == s.c
               v1 == CASE x = "swe" -> Inc(Inc(s.val, {"uv"}, "1"), {"elev"}, "16")
                       [] x = "fs" -> [s.val EXCEPT !["elev"] = RAdd(s.elevOld, "1")]
                       [] x = "sediment" -> Inc(s.val, {"sediment_2d"}, "1")
                       [] x = "exner" -> Inc(s.val, {"bed"}, "1")
                       [] OTHER -> Inc(s.val, LabelsOf(c, x), "1")
               eo == IF x = "fs" /\ e.m = "stage" THEN v1["elev"]
                     ELSE s.elevOld
           IN  [s EXCEPT !.val = TLCEval(v1), !.cnt[x] = @ + 1, !.elevOld = eo,
                         !.sm = IF x = "swe" THEN FALSE ELSE @]
      [] e.ev = "limit" -> [s EXCEPT !.val = TLCEval(Inc(@, {e.field}, "1/8")), !.limc[e.field] = @ + 1]
      [] e.ev = "sedmodel" -> [s EXCEPT !.sm = s.init = Comps(s.c) /\ SweDone(s)]
      [] e.ev = "poisson" -> [s EXCEPT !.val = TLCEval(Inc(Inc(@, {"uv"}, "1/4"), {"q"}, "1")), !.pois = @ + 1]
      [] e.ev = "step" -> [s EXCEPT !.cnt = Zero(DOMAIN @), !.limc = Zero(DOMAIN @), !.pois = 0, !.n = @ + 1, !.sm = FALSE,
                                    !.elevOld = s.val["elev"]]
      [] OTHER -> s
CInvFails(s) == {}
CFinal(s) == Cl(s.n = s.c.steps, "run_incomplete")
====
