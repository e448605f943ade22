---- MODULE GridInterpTrace ----
EXTENDS GridInterp, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- GIInit, Fails <- GIFails, Apply <- GIApply,
                                InvFails <- GIInvFails, Final <- GIFinal
Spec == H!TraceSpec
====
