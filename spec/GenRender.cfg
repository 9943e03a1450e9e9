CONSTANTS
  Spins = {0, 1, 2, 3, 4, 5, 7, 10, 12, 13, 21}
  Parities <- GenParities
  Numbers <- GenNumbers
  LSs <- GenLS
  Latexes <- GenLatexes
  Depth = 14
  Some <- OneOf
INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
