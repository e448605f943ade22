---- MODULE ColumnTrace ----
EXTENDS Column, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- CInit, Fails <- CFails, Apply <- CApply,
                                InvFails <- CInvFails, Final <- CFinal
Spec == H!TraceSpec
====
