CONSTANTS
  D = 5
  ACC = 1
SPECIFICATION Spec
INVARIANTS TypeOK Separate OnlyFitAnswers FitForgets CopyKeeps CloneEmpty Accumulates
CHECK_DEADLOCK FALSE
