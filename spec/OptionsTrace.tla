---- MODULE OptionsTrace ----
EXTENDS Options, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- OInit, Fails <- OFails, Apply <- OApply,
                                InvFails <- OInvFails, Final <- OFinal
Spec == H!TraceSpec
====
