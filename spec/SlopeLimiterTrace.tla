---- MODULE SlopeLimiterTrace ----
EXTENDS SlopeLimiter, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- SLInit, Fails <- SLFails, Apply <- SLApply,
                                InvFails <- SLInvFails, Final <- SLFinal
Spec == H!TraceSpec
====
