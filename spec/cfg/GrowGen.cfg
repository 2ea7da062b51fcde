SPECIFICATION Spec
CONSTANTS Most = 3
          Wins = {1, 4}
CHECK_DEADLOCK FALSE
