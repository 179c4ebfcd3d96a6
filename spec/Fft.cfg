INIT Init
NEXT Next
INVARIANTS IsInverseTransform IsLagrange
CHECK_DEADLOCK FALSE
CONSTANTS
  GFQ = 17
  Sizes = {1, 2, 4, 8, 16}
  FZero = 0
  FOne = 1
  FAdd <- GFAdd
  FSub <- GFSub
  FMul <- GFMul
  FInv <- GFInv
  FPow <- GFPow
  FOfInt <- GFOfInt
  FOmega <- GFOmega
  FGeom <- GFGeom
  FDot <- GFDot
