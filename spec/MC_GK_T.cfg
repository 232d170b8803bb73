CONSTANTS
  E = 3
  V = 3
  D = 9
SPECIFICATION Spec
VIEW View
INVARIANTS Conserved Sorted Known Bracket Accurate Monotone
CHECK_DEADLOCK FALSE
