CONSTANTS
  E = 2
  V = 3
  D = 7
SPECIFICATION Spec
VIEW View
INVARIANTS Conserved Sorted Known Bracket Accurate Monotone
CHECK_DEADLOCK FALSE
