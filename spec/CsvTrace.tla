------------------------------ MODULE CsvTrace ------------------------------
(* Judges recorded readings of CSV files, by the library and by the command.  *)
EXTENDS Csv, TLC, Json, IOUtils

CONSTANT Prop
VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Zero(w) == w = <<0, 0, 0, 0>> \/ w = <<0, 0, 0, 32768>>
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k] \/ (Zero(a[k]) /\ Zero(b[k]))
\* by is "api" (all values are returned) or "command" (a stream of the finite ones, before and after: trees)
\* what the library gives back for a series at the settings used
Expected(ev, d) == IF Has(ev, "lib") /\ ev.lib.given = d THEN ev.lib.got ELSE d
Judge(ev) ==
  LET r == Read(ev.has, ev.header, ev.rows, ev.time, ev.value)
  IN IF ev.by = "api"
     THEN IF Has(ev, "died") THEN "panic"
          ELSE IF ~r.ok THEN (IF Has(ev, "out") THEN "accepted although it must be refused" ELSE "")
          ELSE IF ~Has(ev, "out") THEN "refused"
          ELSE IF Len(ev.out) # Len(r.data) THEN "number of rows"
          ELSE IF \E k \in 1..Len(r.data) : IF r.data[k].is = "odd" THEN ~ev.odd[k] ELSE ~Same(<<r.data[k].w>>, <<ev.out[k]>>) THEN "values"
          ELSE ""
     ELSE IF ~r.ok THEN (IF ev.rc = 0 THEN "success is reported" ELSE IF ev.before # ev.after THEN "output is written" ELSE "")
          ELSE IF ev.rc # 0 THEN "the command fails"
          ELSE IF ~Has(ev, "out") THEN "no output"
          ELSE IF ~Same(Expected(ev, Finite(r.data)), ev.out) THEN "values"
          ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
