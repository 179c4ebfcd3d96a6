INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  FZero = "0"
  FOne = "1"
  FAdd <- BAdd
  FSub <- BSub
  FMul <- BMul
  FInv <- BInv
  FPow <- BPow
  FOfInt <- BOfInt
  FOmega <- BOmega
  FGeom <- BGeom
  FDot <- BDot
  FIDFT <- BIDFT
  Hash1 <- RecordHash
  Hash2 <- RecordHash2
  NoHash = ""
