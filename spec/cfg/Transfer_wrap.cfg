SPECIFICATION Spec
CONSTANTS N = 8 Win = 2 Mod = 5 Disp = 3 Storage = "ok"
INVARIANTS TypeOK Prefix Success Window Belief AckTruth
CHECK_DEADLOCK FALSE
