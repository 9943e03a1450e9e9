CONSTANTS
  Exprs <- SmallExprs
  Backends = {"jax", "numpy"}
  ParChoices <- SmallPars
  DataChoices <- SmallData
  Depth = 4
  Wrap = TRUE
  KeyOf <- NoBackend
  Some <- Every
INIT Init
NEXT Next
INVARIANT Holds
VIEW View
CHECK_DEADLOCK FALSE
