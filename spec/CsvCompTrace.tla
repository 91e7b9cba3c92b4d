---------------------------- MODULE CsvCompTrace ----------------------------
(* Judges recorded runs of the CSV tool: rows; rc of compression; rc2 of      *)
(* decompression and back, the rows that came back (by the names of the       *)
(* columns), if any; exact: the error level is 0; lib: what the library gives *)
(* back for a series at the settings used, otherwise.                         *)
EXTENDS CsvComp, TLC, Json, IOUtils

CONSTANT Prop
VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Zero(w) == w = <<0, 0, 0, 0>> \/ w = <<0, 0, 0, 32768>>
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k] \/ (Zero(a[k]) /\ Zero(b[k]))
Judge(ev) ==
  LET kept == Kept(ev.rows)
      st == Taken(ev.rows)        \* looked at only when nothing is refused
      want == IF ev.exact THEN st.s ELSE IF Has(ev, "lib") /\ ev.lib.given = st.s THEN ev.lib.got ELSE <<>>
  IN IF ~SameDay(ev.rows) THEN ""
     ELSE IF Malformed(ev.rows) THEN (IF ev.rc = 0 THEN "malformed rows are accepted" ELSE "")
     ELSE IF Descends(kept) THEN (IF ev.rc = 0 THEN "rows out of order are accepted" ELSE "")
     ELSE IF Descends(ev.rows) /\ ev.rc # 0 THEN ""
     ELSE IF ev.rc # 0 THEN "compression fails"
     ELSE IF Has(ev, "raw") /\ ~Same(ev.raw, st.s) THEN "raw series"
     ELSE IF ~ev.exact /\ ~(Has(ev, "lib") /\ ev.lib.given = st.s) THEN ""
     ELSE IF ev.rc2 # 0 THEN "decompression fails"
     ELSE IF ~Has(ev, "back") THEN "no rows come back"
     ELSE LET w == Rows(st, want)
          IN IF Len(ev.back) # Len(w) THEN "number of rows"
             ELSE IF \E k \in 1..Len(w) : ev.back[k].sec # w[k].sec THEN "timestamps"
             ELSE IF ~Same(Words(ev.back), Words(w)) THEN "values"
             ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
