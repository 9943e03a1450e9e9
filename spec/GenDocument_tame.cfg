CONSTANTS
  Some <- OneOf
  SpinChoices <- GenSpins
  Orders <- AllOrders
  Names = {"R1", "R2", "N(1440)", "f2"}
  MaxJ = 4
  MaxChains = 5
  Weights = {"1.0 + 0.0i", "0.5 - 1.25i", "-2.0 + 0.75i", "-0.125 - 0.25i", "3", "-0.375", "1.5i", "0.0 - 5e-1i", "2e0+1.5i", " 0.25-0.5i ", "1.0 + 0.0004i", "-0.0002 + 2.0i", "1e-4 - 3e2i", "-1.0 - 0.0i", "0.3+0.3i", "-7.1 + 7.1i", "12.5 + 0.0i", "+0.2-0.0125i", "0.0 + 0.0i"}
  Formfactors = {"", "decay_l0", "decay_l1", "decay_l2", "production_l1", "production_l3"}
  Factors = {"+", "-", "", "absent", " - "}
  Multi = {"R2"}
  Mode = "tame"
  Depth = 24
  Extra = 0
INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
