CONSTANTS Items = {1, 2}
          Caps = {1, 2, 4}
          MaxBatch = 3
SPECIFICATION EmitSpec
INVARIANTS TypeOK PushPop PopSplit
PROPERTIES LIFO
CHECK_DEADLOCK FALSE
