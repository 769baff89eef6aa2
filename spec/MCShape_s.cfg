SPECIFICATION Spec
INVARIANTS NotStale FilledAgrees Canonical OneOff
CHECK_DEADLOCK FALSE
CONSTANTS
  BatchSet <- SmallBatches
  ShapeSet <- SmallShapes
  MaxSteps = 2
  Types = {1,2,3,4,5,6,7,8,9,10,11,12}
