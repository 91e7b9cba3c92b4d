-------------------------------- MODULE Clock --------------------------------
(* Time as days and seconds of a day. The clock may jump to any day, and      *)
(* ticks; what the index takes of a timestamp is the second of its day.       *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Days, Seconds, MaxTicks
VARIABLES day, sec, ticks

vars == <<day, sec, ticks>>
DaySeconds == 86400
Elapsed(t) == t.sec
StartOf(t) == [day |-> t.day, sec |-> 0]
Init == day \in {d - 1000000 : d \in Days} /\ sec \in Seconds /\ ticks = 0 /\ PrintT("@" \o ToJson([day |-> day, sec |-> sec]))
Tick == /\ ticks < MaxTicks
        /\ ticks' = ticks + 1
        /\ IF sec = DaySeconds - 1 THEN sec' = 0 /\ day' = day + 1 ELSE sec' = sec + 1 /\ day' = day
        /\ PrintT("@" \o ToJson([day |-> day', sec |-> sec']))
Next == Tick
InDay == sec \in 0..(DaySeconds - 1)
Forward == [][Elapsed([day |-> day', sec |-> sec']) > Elapsed([day |-> day, sec |-> sec]) \/ day' = day + 1]_vars
=============================================================================
