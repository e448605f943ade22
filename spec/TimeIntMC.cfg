SPECIFICATION Spec
CONSTANTS
  Schemes = {"SSPRK33", "ERKLSPUM2", "ERKLPUM2", "ERKMidpoint", "ERKEuler", "BackwardEuler", "ImplicitMidpoint", "DIRK22", "DIRK23", "DIRK33", "DIRK43", "DIRKLSPUM2", "DIRKLPUM2", "ESDIRKMidpoint", "ESDIRKTrapezoid", "CrankNicolsonRK", "BackwardEulerUForm", "DIRK22UForm", "DIRK33UForm", "IMEXLPUM2", "IMEXLSPUM2", "IMEXMidpoint", "IMEXEuler", "ForwardEuler", "CrankNicolson", "SteadyState", "LeapFrogAM3", "SSPRK22ALE"}
  MaxOps = 2
INVARIANTS EmitsAllowed CorruptRejected Conserves Stationary RampExact
CHECK_DEADLOCK FALSE
