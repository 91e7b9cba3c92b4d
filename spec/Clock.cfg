INIT Init
NEXT Next
CONSTANTS
 Days = {0, 634513, 999999, 1000000, 1000001, 1000365, 1011016, 1019782, 1024855, 1024856, 2932896, 3932897}
 Seconds = {0, 1, 58, 59, 60, 3598, 3599, 3600, 43199, 43200, 82799, 86397, 86398, 86399}
 MaxTicks = 3
INVARIANTS InDay
PROPERTIES Forward
CHECK_DEADLOCK FALSE
