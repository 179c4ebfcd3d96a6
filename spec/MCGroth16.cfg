INIT Init
NEXT Next
INVARIANTS ProofsVerify KeysAreGroth16
CHECK_DEADLOCK FALSE
CONSTANTS
  GFQ = 17
  Secrets = {2, 3, 13}
  Shifts = {1, 6}
  FZero = 0
  FOne = 1
  FAdd <- GFAdd
  FSub <- GFSub
  FMul <- GFMul
  FInv <- GFInv
  FPow <- GFPow
  FOfInt <- GFOfInt
  FOmega <- GFOmega
  FGeom <- GFGeom
  FDot <- GFDot
  Hash1 <- NoHash1
  Hash2 <- NoHash1
  NoHash <- EmptyHash
  FIDFT <- IDFT
