SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 5
 Maxes = {1, 2}
 Peers = {1, 2, 3}
