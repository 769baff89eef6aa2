CONSTANTS Items = {1, 2}
          Caps = {1, 2, 4}
          MaxBatch = 3
SPECIFICATION EmitSpec
INVARIANTS TypeOK TakeSplit PutTake
PROPERTIES FIFO
CHECK_DEADLOCK FALSE
