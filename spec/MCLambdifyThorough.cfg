CONSTANTS
  Exprs <- SmallExprs
  Backends = {"jax", "numpy"}
  ParChoices <- SmallPars
  DataChoices <- SmallData
  Depth = 5
  Wrap = TRUE
  KeyOf <- FullKey
  Some <- Every
INIT Init
NEXT Next
INVARIANT Holds
VIEW View
CHECK_DEADLOCK FALSE
