CONSTANTS
  D = 5
SPECIFICATION Spec
INVARIANTS FixedKept NonEmptyChoice AllWithoutCriteria TopBound MinKept
CHECK_DEADLOCK FALSE
