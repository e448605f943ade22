CONSTANT Deep = TRUE
SPECIFICATION Spec
INVARIANTS PicardLimit Accepted Rejected TwoForms Dissipation Impulse DepthPositive WetDry
CHECK_DEADLOCK FALSE
