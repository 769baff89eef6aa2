SPECIFICATION TraceSpec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  WordBits = 32
  ByteBits = 8
