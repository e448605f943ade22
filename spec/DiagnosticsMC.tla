---- MODULE DiagnosticsMC ----
(***************************************************************************)
(* A model of a writer with two callbacks (one may be restarted in append  *)
(* or create mode) emits the events of the specification; all are allowed, *)
(* the series contain every evaluation since the file was created.  Faulty *)
(* writers are rejected.                                                   *)
(***************************************************************************)
EXTENDS Diagnostics
CONSTANTS N
VARIABLES s, t, alive, log, ok
vars == <<s, t, alive, log, ok>>

C == [Lx |-> "2", Ly |-> "1", dt |-> "1/2"]
New(k, app) == [ev |-> "new", cb |-> k, kind |-> IF k = "a" THEN "accumulator" ELSE "custom", par |-> <<>>,
                lo |-> IF k = "a" THEN "1" ELSE "none", hi |-> IF k = "a" THEN "3" ELSE "none",
                append |-> app, file |-> k, names |-> <<"x">>, single |-> FALSE]
Field(v) == [ev |-> "field", name |-> "scalar", v |-> v]
Series(v) == [ev |-> "field", name |-> "series", v |-> <<<<v>>>>]
S0 == DApply(DApply(DApply(DApply(DInit(C), New("a", FALSE)), New("b", FALSE)), Field("0")), Series("0"))
Init == /\ s = S0 /\ t = 0 /\ alive = {"a", "b"} /\ log = [a |-> <<>>, b |-> <<>>] /\ ok = TRUE

Contents(k, entries) == LET D == DOMAIN s.files \cup {k}
                            q == CHOOSE q \in [1..Cardinality(D) -> D] : {q[i] : i \in DOMAIN q} = D
                        IN  [i \in 1..Len(q) |-> [name |-> q[i], names |-> <<"x">>,
                                                  entries |-> IF q[i] = k THEN entries ELSE s.files[q[i]]]]
Time == R(t)
Entry(k) == [t |-> Time, v |-> IF k = "a" THEN <<<<s.F.scalar>>>> ELSE s.F.series]
Eval(k, idx, fault) ==
    LET cb == s.cbs[k]
        m == s.mem[k]
        on == InWindow(cb, Time)
        old == Before(s, cb, m)
        p == Pos(old, idx)
        new == CASE fault = "none" -> [i \in 1..(IF p > Len(old) THEN p ELSE Len(old)) |-> IF i = p THEN Entry(k) ELSE old[i]]
                 [] fault = "truncate" -> <<Entry(k)>>
                 [] fault = "append" -> old \o <<Entry(k)>>
                 [] fault = "late" -> [i \in 1..(IF p > Len(old) THEN p ELSE Len(old)) |->
                                         IF i = p THEN [Entry(k) EXCEPT !.t = RAdd(@, "1/2")] ELSE old[i]]
        acc == IF m.old = "none" THEN "0" ELSE RAdd(m.acc, RMul(C.dt, RDiv(RAdd(m.old, s.F.scalar), 2)))
        others == IF on THEN Contents(k, new)
                  ELSE IF k \in DOMAIN s.files THEN Contents(k, s.files[k])
                  ELSE IF DOMAIN s.files = {} THEN <<>>
                  ELSE LET f == CHOOSE f \in DOMAIN s.files : TRUE
                       IN  <<[name |-> f, names |-> <<"x">>, entries |-> s.files[f]]>>
    IN  [ev |-> "eval", cb |-> k, t |-> Time, idx |-> idx, ran |-> on, acc |-> acc, files |-> others]

Step(k, idx) ==
    LET e == Eval(k, idx, "none") IN
    /\ ok' = (DFails(s, e) = {})
    /\ s' = DApply(s, e)
    /\ log' = IF ~e.ran THEN log
              ELSE LET l0 == IF s.mem[k].open \/ s.cbs[k].append THEN log[k] ELSE <<>>
                   IN  [log EXCEPT ![k] = IF idx < 0 \/ idx >= Len(l0) THEN Append(l0, Time) ELSE [l0 EXCEPT ![idx + 1] = Time]]
    /\ t' = t + 1
    /\ UNCHANGED alive
Restart(k, app) ==
    /\ s' = DApply(s, New(k, app))
    /\ log' = log
    /\ t' = t + 1
    /\ ok' = TRUE
    /\ UNCHANGED alive
Change == /\ s' = DApply(DApply(s, Field(R(2*t + 1))), Series(R(t)))
          /\ t' = t + 1 /\ ok' = TRUE /\ UNCHANGED <<alive, log>>
Next == t < N /\ (\/ \E k \in alive, idx \in {-1, 0, 2} : Step(k, idx)
                  \/ \E k \in alive, app \in BOOLEAN : Restart(k, app)
                  \/ Change)
Spec == Init /\ [][Next]_vars

Allowed == ok
\* every evaluation is in the file (unless replaced by its index); a not yet reopened file keeps the old series
Complete == \A k \in alive : (k \in DOMAIN s.files /\ (s.mem[k].open \/ s.cbs[k].append)) =>
              [i \in 1..Len(s.files[k]) |-> s.files[k][i].t] = log[k]
FaultsRejected ==
    \A k \in alive, idx \in {-1, 0} : LET cb == s.cbs[k]
                          m == s.mem[k]
                          old == Before(s, cb, m)
                          fine == Eval(k, idx, "none")
                      IN  \A f \in {"truncate", "append", "late"} :
                            LET e == Eval(k, idx, f) IN (e # fine) => DFails(s, e) # {}
====
