INIT Init
NEXT Next
INVARIANTS SameOutput SameVerdict NaiveLoses
CHECK_DEADLOCK FALSE
CONSTANTS
  GFQ = 5
  MaxLen = 5
  MaxBatch = 6
  Values = {0, 1, 2, 3, 4}
  FZero = 0
  FOne = 1
  FAdd <- GFAdd
  FSub <- GFSub
  FMul <- GFMul
  FInv <- GFInv
  FPow <- GFPow
  FOfInt <- GFOfInt
  FOmega <- GFOmega
  FGeom <- GFGeom
  FDot <- GFDot
