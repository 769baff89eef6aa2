SPECIFICATION Spec
INVARIANTS MatchesFold OnePerRecord MatchesImpl Irrelevant
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
  Recs = {1, 2, 3}
  Costs = {0, 1, 1000000}
