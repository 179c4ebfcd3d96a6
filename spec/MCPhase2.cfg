INIT Init
NEXT Next
INVARIANTS HonestAccepted HonestParams AcceptedIsWellFormed
PROPERTIES RecordsKept
CHECK_DEADLOCK FALSE
CONSTANTS
  GFQ = 7
  Deltas = {1, 2, 3, 5}
  MaxLen = 3
  Deviations = 1
  FZero = 0
  FOne = 1
  FAdd <- GFAdd
  FSub <- GFSub
  FMul <- GFMul
  FInv <- GFInv
  FPow <- GFPow
  FOfInt <- GFOfInt
  FOmega <- GFOmega
  FGeom <- GFGeom
  FDot <- GFDot
  Hash2 <- SymHash
  NoHash <- EmptyHash
  Scalar <- MCScalar
  Secret2 <- MCSecret
  BogusHash <- MCBogus
  FlipHash <- MCFlip
