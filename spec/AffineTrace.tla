---- MODULE AffineTrace ----
EXTENDS Affine, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- AInit, Fails <- AFails, Apply <- AApply,
                                InvFails <- AInvFails, Final <- AFinal
Spec == H!TraceSpec
====
