SPECIFICATION Spec
CONSTANT Wins = {1, 4}
CHECK_DEADLOCK FALSE
