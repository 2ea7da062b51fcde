SPECIFICATION Spec
CONSTANTS
  Attacker = TRUE
  Levels = {1, 4, 5}
INVARIANTS NoDowngrade OnlyListed Pinned Secret HonestRuns HonestAgrees HonestServed
CHECK_DEADLOCK FALSE
