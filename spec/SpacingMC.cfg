INIT Init
NEXT Next
CONSTANTS
 Upto = 3000
 Beyond = {4095, 4096, 8192, 9999, 16384, 32768, 65535, 65536, 99999, 131071, 131072}
INVARIANTS Closer AllInTheEnd OneByte EndsKept Sparse
CHECK_DEADLOCK FALSE
