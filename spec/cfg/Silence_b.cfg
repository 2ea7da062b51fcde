CONSTANTS RTc = 4
 RTs = 7
 Poll = 2
 N = 5
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
INVARIANT NoStale
PROPERTY Patient
PROPERTY BothEnd
