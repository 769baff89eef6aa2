SPECIFICATION Spec
INVARIANTS WellFormedResults OnlyOperandRecords Conserved Opposite ConcatCut
CHECK_DEADLOCK FALSE
CONSTANTS
  Big = FALSE
  Families = {"axes","reshapes","gathers","tiles","joins","pads","wheres","indexes"}
