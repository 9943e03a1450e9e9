CONSTANTS
  Exprs = {}
  Backends = {"jax", "numpy"}
  ParChoices = {}
  DataChoices = {}
  Depth = 24
  Wrap = TRUE
  KeyOf <- FullKey
  Some <- OneOf
INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
