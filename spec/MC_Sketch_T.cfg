CONSTANTS
  NS = 3
  D = 4
SPECIFICATION Spec
INVARIANTS Conserved OrderFree CutFree
CHECK_DEADLOCK FALSE
