INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  FZero = "0"
  FOne = "1"
  FAdd <- BAdd
  FSub <- BSub
  FMul <- BMul
  FInv <- BInv
  FPow <- BPow
  FOfInt <- BOfInt
  FOmega <- BOmega
  FGeom <- BGeom
  FDot <- BDot
  Hash2 <- RecordHash2
  NoHash = ""
  Scalar <- GScalar
  Secret2 <- GSecret
  BogusHash <- GBogus
  FlipHash <- GFlip
