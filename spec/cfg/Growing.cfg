SPECIFICATION Spec
CONSTANTS B = 3
          Most = 7
INVARIANTS Faithful Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
