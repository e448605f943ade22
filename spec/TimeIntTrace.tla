---- MODULE TimeIntTrace ----
EXTENDS TimeInt, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- TIInit, Fails <- TIFails, Apply <- TIApply,
                                InvFails <- TIInvFails, Final <- TIFinal
Spec == H!TraceSpec
====
