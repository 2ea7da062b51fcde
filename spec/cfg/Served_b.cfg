SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Over = FALSE
 Depth = 1
 List = "-"
 MaxReq = 2
 EARLY = FALSE
INVARIANTS TypeOK Untouched OnlyMeant NothingOutside Kept OneChanges
