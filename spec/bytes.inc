  FIDFT <- BIDFT
  Hash1 <- RecordHash
  Hash2 <- RecordHash2
  NoHash = ""
