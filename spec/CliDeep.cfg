CONSTANTS MaxLen = 3
 Kinds = {"cc", "md", "mirror", "sym", "hm", "hn", "t", "tx", "ty", "tz", "r", "rx", "ry", "rz", "s", "sx", "sy", "sz", "fn", "tq", "c", "p"}
INIT Init
NEXT Next
INVARIANTS Performed EachOnce Documented OrderFree NothingForced Emit
CHECK_DEADLOCK FALSE
