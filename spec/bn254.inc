  FZero = "0"
  FOne = "1"
  FAdd <- BAdd
  FSub <- BSub
  FMul <- BMul
  FInv <- BInv
  FPow <- BPow
  FOfInt <- BOfInt
  FOmega <- BOmega
  FGeom <- BGeom
  FDot <- BDot
