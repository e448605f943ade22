---- MODULE SedimentTrace ----
EXTENDS Sediment, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- XInit, Fails <- XFails, Apply <- XApply,
                                InvFails <- XInvFails, Final <- XFinal
Spec == H!TraceSpec
====
