SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Ks = {0, 1, 2, 3, 4, 5, 6, 8, 11}
 Wins = {1, 4}
 Levels = {"none", "data", "protocol", "full"}
