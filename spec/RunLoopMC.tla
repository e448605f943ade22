---- MODULE RunLoopMC ----
(* Exhaustive check of RunLoop over small configurations. *)
EXTENDS RunLoop, TLC, Json
CONSTANTS DTs, TEXPs, TENDs
VARIABLES s
Cbs == {<<>>,
        <<[name |-> "a", when |-> "timestep", lo |-> "none", hi |-> "none"],
          [name |-> "b", when |-> "export", lo |-> "none", hi |-> "none"]>>,
        <<[name |-> "c", when |-> "timestep", lo |-> "2", hi |-> "none"],
          [name |-> "d", when |-> "export", lo |-> "none", hi |-> "3"],
          [name |-> "e", when |-> "timestep", lo |-> "1", hi |-> "3"]>>}
Restarts == {[on |-> FALSE]} \cup
    [on : {TRUE}, i : {0, 1, 2}, t : {"none", "0"}, iter : {-1}, iexp : {-1, 0}, same : BOOLEAN,
     texp1 : TEXPs, tend1 : {"4"}]
Configs == [mode : {"2d", "3d"}, rs : Restarts, t0 : {"0"}, dtreq : DTs, texp : TEXPs, tend : TENDs, it0 : {0}, ie0 : {0}, fresh : {TRUE},
            fidx : {0}, old : {<<>>}, hf : {<<"elev">>, <<>>}, vf : {<<>>}, cbs : Cbs, func : BOOLEAN,
            gen : {FALSE}, date : {"none"}, ver0 : {0}]
Init == \E c \in Configs :
          /\ c.rs.on => /\ c.rs.texp1 = c.texp
                         /\ RLe(c.dtreq, c.texp)
                         /\ (c.rs.t = "0") = (c.rs.iexp = 0)
                         /\ ~c.func
          /\ ~c.rs.on => (c.mode = "2d")
          /\ s = RunInit(c)
Next == \E e \in Emits(s) : s' = RunApply(s, e)
Spec == Init /\ [][Next]_s
Live == Spec /\ WF_s(Next)
Invariants == RunInvFails(s) = {}
EmitsAllowed == \A e \in Emits(s) : RunFails(s, e) = {}
CorruptRejected == \A e \in Emits(s) : \A x \in Corrupt(e) : RunFails(s, x) # {}
NoDeadEnd == s.ph # "ended" => Emits(s) # {}
Terminates == <>(s.ph = "ended")
====
