---- MODULE RunLoopTrace ----
EXTENDS RunLoop, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- RunInit, Fails <- RunFails, Apply <- RunApply,
                                InvFails <- RunInvFails, Final <- RunFinal
Spec == H!TraceSpec
====
