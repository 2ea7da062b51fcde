CONSTANTS Peers = {1, 2, 3}
 Max = 2
 RT = 2
 Poll = 1
CHECK_DEADLOCK FALSE
SPECIFICATION LiveSpec
PROPERTY Released
