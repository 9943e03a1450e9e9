CONSTANTS
  Some <- Every
  SpinChoices <- MCSpins
  Orders <- MCOrders
  Names = {"R1"}
  MaxJ = 2
  MaxChains = 2
  Weights = {"0.5 - 1.25i"}
  Formfactors = {"decay_l1", "production_l1"}
  Factors = {"+", "-"}
  Multi = {}
  Mode = "tame"
  Depth = 3
  Extra = 0
INIT Init
NEXT MCNext
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
