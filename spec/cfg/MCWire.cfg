SPECIFICATION Spec
INVARIANT Stable
CHECK_DEADLOCK FALSE
CONSTANTS
 Alphabet = {0, 1, 3, 4, 5, 6, 97, 195}
 MaxLen = 6
