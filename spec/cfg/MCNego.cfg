SPECIFICATION Spec
CONSTANTS
  BsV <- B
  WinV <- W
  ToV <- O
  TsV <- S
  Limits <- LimitsDef
  FileSize = 100
INVARIANTS Agreement NoFailure WithinLimits WithinRequest
CHECK_DEADLOCK FALSE
