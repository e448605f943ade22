---- MODULE UniformFlowTrace ----
EXTENDS UniformFlow, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- UInit, Fails <- UFails, Apply <- UApply,
                                InvFails <- UInvFails, Final <- UFinal
Spec == H!TraceSpec
====
