INIT Init
NEXT Next
INVARIANTS HonestAccepted HonestParams AcceptedIsWellFormed WrongBase
PROPERTIES RecordsKept
CHECK_DEADLOCK FALSE
CONSTANTS
  GFQ = 5
  Secrets = {2, 3}
  MaxLen = 2
  Powers = {1}
  Deviations = 1
  FZero = 0
  FOne = 1
  FAdd <- GFAdd
  FSub <- GFSub
  FMul <- GFMul
  FInv <- GFInv
  FPow <- GFPow
  FOfInt <- GFOfInt
  FOmega <- GFOmega
  FGeom <- GFGeom
  FDot <- GFDot
  Hash1 <- SymHash
  NoHash <- EmptyHash
  Scalar <- MCScalar
  Secret <- MCSecret
  BogusHash <- MCBogus
  FlipHash <- MCFlip
