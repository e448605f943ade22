---- MODULE TraceFile ----
(* The recorded traces; extended by the root module so that TLC evaluates the constant once. *)
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
====
