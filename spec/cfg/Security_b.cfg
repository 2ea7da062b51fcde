SPECIFICATION Spec
CONSTANTS
  Attacker = TRUE
  Levels = {0, 1, 2, 3, 4, 5}
INVARIANTS NoDowngrade OnlyListed Pinned Secret HonestRuns HonestAgrees HonestServed
CHECK_DEADLOCK FALSE
