SPECIFICATION Spec
CONSTANTS N = 4 Win = 2 Mod = 65536 Disp = 100 Storage = "fails"
INVARIANTS TypeOK Prefix Success Window Belief AckTruth
CHECK_DEADLOCK FALSE
