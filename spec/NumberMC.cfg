CONSTANTS
  Names = {"bool","int8","int16","int32","int64","uint8","uint16","uint32","uint64","float32","float64","int128","uint128"}
  Ks = {0,1,2,3,7,8,15,16,23,24,25,31,32,33,52,53,54,62,63,64,65,127,128}
INIT Init
NEXT Next
INVARIANTS RoundTrip InexactExact InexactComplete RangeOk Nearest OverflowOk Stricter
CHECK_DEADLOCK FALSE
