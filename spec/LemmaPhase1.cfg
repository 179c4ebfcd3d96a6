INIT Init
NEXT Next
INVARIANTS SectionLemma RecordLemma
CHECK_DEADLOCK FALSE
CONSTANTS
  GFQ = 5
  FZero = 0
  FOne = 1
  FAdd <- GFAdd
  FSub <- GFSub
  FMul <- GFMul
  FInv <- GFInv
  FPow <- GFPow
  FOfInt <- GFOfInt
  FOmega <- GFOmega
  FGeom <- GFGeom
  FDot <- GFDot
  Hash1 <- SymHash
  NoHash <- EmptyHash
