CONSTANTS
  N = 5
  K = 4
SPECIFICATION Spec
INVARIANTS RefineOK TrivialOK Monotone Inclusion Mirror Exchange DataProcessing
CHECK_DEADLOCK FALSE
