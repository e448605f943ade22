---- MODULE Coupled2DMC ----
(* Every order of component events that the specification allows leads to the state of a complete step,
   and it never gets stuck. *)
EXTENDS Coupled2D
CONSTANTS Deep
VARIABLES s
Sys1 == <<[name |-> "a_2d", labels |-> <<"a_2d">>]>>
Sys2 == <<[name |-> "a_2d", labels |-> <<"a_2d">>], [name |-> "b_2d,c_2d", labels |-> <<"b_2d", "c_2d">>]>>
Sys3 == <<[name |-> "a_2d", labels |-> <<"a_2d">>], [name |-> "b_2d", labels |-> <<"b_2d">>]>>
Base == [systems |-> <<>>, p |-> 1, lim |-> FALSE, deg |-> 1, sed |-> FALSE, exner |-> FALSE, tracerOnly |-> FALSE,
         nh |-> FALSE, upd |-> TRUE, swe |-> "CrankNicolson", fst |-> "BackwardEuler", steps |-> 2, t0 |-> "0", dt |-> "1/2",
         elev0 |-> "0"]
Configs == {[Base EXCEPT !.systems = y, !.p = p, !.lim = lm, !.sed = sd, !.exner = ex, !.tracerOnly = to] :
               y \in {<<>>, Sys1, Sys3}, p \in (IF Deep THEN 1..3 ELSE {1, 2}), lm \in BOOLEAN, sd \in BOOLEAN, ex \in BOOLEAN, to \in BOOLEAN}
           \cup {[Base EXCEPT !.systems = Sys2, !.p = p] : p \in {1, 2}}
           \cup {[Base EXCEPT !.systems = Sys1, !.lim = TRUE, !.deg = 0, !.sed = TRUE]}
           \cup {[Base EXCEPT !.nh = TRUE, !.upd = u, !.swe = w, !.fst = f] :
                   u \in BOOLEAN, w \in {"CrankNicolson", "SSPIMEX", "SSPRK33", "BackwardEuler", "DIRK22", "DIRK33"},
                   f \in {"BackwardEuler", "CrankNicolson"}}
           \cup {[Base EXCEPT !.nh = TRUE, !.swe = w, !.fst = w] : w \in {"DIRK22", "DIRK33"}}
Init == \E c \in Configs : s = [CInit(c) EXCEPT !.init = Comps(c)]
V(st) == [f \in DOMAIN st.val |-> st.val[f]]
SawOf(st, x) == IF x = "fs" THEN [st.val EXCEPT !["elev"] = st.elevOld] ELSE st.val
Adv(st, x, m, i, lg, la) == [ev |-> "adv", comp |-> x, m |-> m, i |-> i, lagged |-> lg, last |-> la, t |-> Now(st), forc |-> TRUE, saw |-> SawOf(st, x)]
Cand(st) ==
    {Adv(st, x, "advance", 0, TRUE, TRUE) : x \in Comps(st.c)}
    \cup {Adv(st, x, "stage", i, TRUE, TRUE) : x \in Comps(st.c), i \in 0..2}
    \cup {Adv(st, x, "picard", 0, lg, la) : x \in Comps(st.c), lg \in BOOLEAN, la \in BOOLEAN}
    \cup {[ev |-> "limit", field |-> f, saw |-> st.val] : f \in DOMAIN st.limc}
    \cup (IF st.sm THEN {} ELSE {[ev |-> "sedmodel", saw |-> st.val]})
    \cup {[ev |-> "poisson", w |-> w, saw |-> st.val] : w \in BOOLEAN}
    \cup {[ev |-> "step", t |-> RAdd(st.c.t0, RMul(st.n + 1, st.c.dt)), saw |-> st.val,
           old |-> <<st.val["uv"], st.val["elev"], st.val["uv"], st.val["elev"]>>]}
Allowed(st) == {e \in Cand(st) : CFails(st, e) = {}}
Next == s.n < s.c.steps /\ \E e \in Allowed(s) : s' = CApply(s, e)
Spec == Init /\ [][Next]_s
NoDeadEnd == s.n < s.c.steps => Allowed(s) # {}
\* increments of a complete step, whatever the order was
PerStep(c, f) ==
    CASE f = "uv" -> IF c.tracerOnly THEN "0" ELSE RAdd(R(Reps(c, "swe")), IF c.nh THEN RMul("1/4", Reps(c, "swe")) ELSE "0")
      [] f = "elev" -> IF c.tracerOnly THEN "0" ELSE IF c.nh /\ c.upd THEN R(Reps(c, "fs")) ELSE RMul("16", Reps(c, "swe"))
      [] f = "q" -> IF c.nh THEN R(Reps(c, "swe")) ELSE "0"
      [] f = "bed" -> IF c.exner THEN "1" ELSE "0"
      [] f = "sediment_2d" -> IF c.sed THEN (IF Lim(c) THEN "9/8" ELSE "1") ELSE "0"
      [] OTHER -> RMul(c.p, IF Lim(c) THEN "9/8" ELSE "1")
StepValues == Fresh(s) => \A f \in DOMAIN s.val : s.val[f] = RMul(s.n, PerStep(s.c, f))
\* no component is solved twice in a row without its partners, no step ends early
Corrupt(e) == CASE e.ev = "adv" -> {[e EXCEPT !.saw["uv"] = RAdd(@, "1")], [e EXCEPT !.t = RAdd(@, "1/2")], [e EXCEPT !.forc = FALSE]}
                [] e.ev = "limit" -> {[e EXCEPT !.saw[e.field] = RAdd(@, "1")]}
                [] e.ev = "step" -> {[e EXCEPT !.saw["elev"] = RAdd(@, "1")]}
                [] e.ev = "sedmodel" -> {[e EXCEPT !.saw["uv"] = RSub(@, "1")]}
                [] OTHER -> {[e EXCEPT !.saw["elev"] = RAdd(@, "16")]}
CorruptRejected == s.n < s.c.steps => \A e \in Allowed(s) : \A x \in Corrupt(e) : CFails(s, x) # {}
TwiceRejected == \A x \in DOMAIN s.cnt : s.cnt[x] <= Reps(s.c, x)
EarlyStepRejected == ~Complete(s) => \A e \in Allowed(s) : e.ev # "step"
====
