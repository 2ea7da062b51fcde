SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 6
 Maxes = {1, 2}
 Peers = {1, 2, 3}
