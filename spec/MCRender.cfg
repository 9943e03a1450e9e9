CONSTANTS
  Spins = {0, 1}
  Parities = {0, 1}
  Numbers = {10005}
  LSs <- FewLS
  Latexes = {"x"}
  Depth = 3
  Some <- Every
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
