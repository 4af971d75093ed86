INIT Init
NEXT Next
CONSTANTS Wide = FALSE
  Ks = {0, 1, 2, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64}
INVARIANTS IntMeaning FltMeaning FltLaws SqrtMeaning
CHECK_DEADLOCK FALSE
