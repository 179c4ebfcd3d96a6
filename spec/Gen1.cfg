INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  FZero = "0"
  FOne = "1"
  FAdd <- BAdd
  FSub <- BSub
  FMul <- BMul
  FInv <- BInv
  FPow <- BPow
  FOfInt <- BOfInt
  FOmega <- BOmega
  FGeom <- BGeom
  FDot <- BDot
  Hash1 <- RecordHash
  NoHash = ""
  Scalar <- GScalar
  Secret <- GSecret
  BogusHash <- GBogus
  FlipHash <- GFlip
