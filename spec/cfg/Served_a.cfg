SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Over = TRUE
 Depth = 2
 List = "list"
 MaxReq = 2
 EARLY = FALSE
INVARIANTS TypeOK Untouched OnlyMeant NothingOutside Kept OneChanges
