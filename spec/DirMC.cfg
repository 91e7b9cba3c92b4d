CONSTANTS
  Kinds = {"wbro", "bro", "text", "empty", "short", "dir"}
  MaxFiles = 3
INIT Init
NEXT Next
INVARIANTS Confluent SubdirsAlone
CHECK_DEADLOCK FALSE
