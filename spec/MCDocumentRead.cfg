CONSTANTS
  Some <- Every
  SpinChoices <- MCSpinsOne
  Orders <- MCOrders
  Names = {"R1"}
  MaxJ = 1
  MaxChains = 2
  Weights = {"0.5 - 1.25i"}
  Formfactors = {"decay_l1"}
  Factors = {"-"}
  Multi = {}
  Mode = "tame"
  Depth = 3
  Extra = 0
INIT Init
NEXT MCReadNext
VIEW ReadView
INVARIANT HoldsRead
CHECK_DEADLOCK FALSE
