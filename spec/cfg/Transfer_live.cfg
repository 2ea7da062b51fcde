SPECIFICATION Spec
CONSTANTS N = 3 Win = 2 Mod = 65536 Disp = 100 Storage = "ok"
INVARIANTS TypeOK Prefix Success Window Belief AckTruth
PROPERTY Completes
CHECK_DEADLOCK FALSE
