---- MODULE LedgerTrace ----
EXTENDS Ledger, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- LInit, Fails <- LFails, Apply <- LApply,
                                InvFails <- LInvFails, Final <- LFinal
Spec == H!TraceSpec
====
