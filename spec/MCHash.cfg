CONSTANTS Recs = {1, 2}
 Cap = 4
 BatchLen = 3
 Prios = {1, 2}
SPECIFICATION Spec
INVARIANTS AddressesDistinct WithinCap
PROPERTY Permanent
CHECK_DEADLOCK FALSE
