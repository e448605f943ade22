---- MODULE TimeSeriesTrace ----
EXTENDS TimeSeries, TraceFile
VARIABLES tid, l, s, bad, done
H == INSTANCE TraceHarness WITH InitState <- TSInit, Fails <- TSFails, Apply <- TSApply,
                                InvFails <- TSInvFails, Final <- TSFinal
Spec == H!TraceSpec
====
