CONSTANTS RTc = 3
 RTs = 2
 Poll = 1
 N = 3
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
INVARIANT NoStale
PROPERTY Patient
PROPERTY BothEnd
