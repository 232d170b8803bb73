CONSTANTS
  D = 4
  ACC = 0
SPECIFICATION Spec
INVARIANTS TypeOK Separate OnlyFitAnswers FitForgets CopyKeeps CloneEmpty Accumulates
CHECK_DEADLOCK FALSE
