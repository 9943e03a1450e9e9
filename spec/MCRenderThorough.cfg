CONSTANTS
  Spins = {1}
  Parities = {0}
  Numbers = {9996}
  LSs <- OneLS
  Latexes = {"x"}
  Depth = 4
  Some <- Every
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
