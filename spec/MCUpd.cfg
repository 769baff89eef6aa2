SPECIFICATION Spec
INVARIANTS SameAsLoop Untouched FirstWins Later Wide
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  MaxLen = 3
