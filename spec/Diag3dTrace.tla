---- MODULE Diag3dTrace ----
EXTENDS Diag3d, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- DInit, Fails <- DFails, Apply <- DApply,
                                InvFails <- DInvFails, Final <- DFinal
Spec == H!TraceSpec
====
