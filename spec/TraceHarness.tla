---- MODULE TraceHarness ----
(***************************************************************************)
(* Validation of recorded traces against a specification given as a        *)
(* labelled transition system over a state record s:                       *)
(*                                                                         *)
(*   InitState(cfg)  the initial state of a trace with configuration cfg   *)
(*   Fails(s, e)     the set of names of the clauses that event e violates *)
(*                   in state s ({}: the step is allowed)                  *)
(*   Apply(s, e)     the successor state                                   *)
(*   InvFails(s)     names of the state invariants that s violates         *)
(*   Final(s)        names of the clauses violated when the trace ends in s*)
(*                                                                         *)
(* TRACE_FILE has one JSON object per line:                                *)
(*   {"tid": n, "cfg": {...}, "ev": [{"ev": name, ...}, ...]}              *)
(* Verdicts are total: for every trace exactly one                         *)
(*   <<"TRACE", json of [tid, line, fails]>>                               *)
(* is printed; fails = {} means accepted.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Traces, InitState(_), Fails(_, _), Apply(_, _), InvFails(_), Final(_)

VARIABLES tid, l, s, bad, done
tvars == <<tid, l, s, bad, done>>

Ev == Traces[tid].ev

Say(line, fails) == PrintT(<<"TRACE", ToJson([tid |-> Traces[tid].tid, line |-> line, fails |-> fails])>>)

TraceInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 0
    /\ s = InitState(Traces[tid].cfg)
    /\ bad = {}
    /\ done = FALSE

Consume ==
    /\ l < Len(Ev)
    /\ LET e == Ev[l + 1]
           f == IF e.ev \in {"exception", "crash"} THEN {"no_" \o e.ev} ELSE Fails(s, e)
       IN  /\ l' = l + 1
           /\ IF f = {}
              THEN /\ s' = Apply(s, e)
                   /\ bad' = InvFails(s')
                   /\ done' = (bad' # {})
                   /\ (bad' # {} => Say(l', bad'))
              ELSE /\ s' = s
                   /\ bad' = f
                   /\ done' = TRUE
                   /\ Say(l', f)

Finish ==
    /\ l = Len(Ev)
    /\ bad' = Final(s)
    /\ Say(l, bad')
    /\ done' = TRUE
    /\ UNCHANGED <<l, s>>

TraceNext == ~done /\ (Consume \/ Finish) /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* c holds, otherwise the clause called n is violated
Cl(c, n) == IF c THEN {} ELSE {n}
====
