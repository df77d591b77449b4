SPECIFICATION Spec
CONSTANTS
  Arities = {2, 4, 8, 16}
  MaxLeaves = 64
  Chunk = 16
INVARIANTS NoBadValue DoneExact RowOrder
CHECK_DEADLOCK FALSE
