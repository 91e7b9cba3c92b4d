----------------------------- MODULE WbroTrace -----------------------------
(* Judges recorded sessions with raw series: operations and what each of them *)
(* showed. Two kinds: by length (series are prefixes of one sequence; the     *)
(* recorder says whether what it read is such a prefix), and in full (the     *)
(* samples and the bytes of the file are recorded).                           *)
EXTENDS Wbro, TLC, Json, IOUtils

CONSTANT Prop
VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
None == 0 - 1

Bad(s, why) == [s EXCEPT !.bad = why]
\* by length: s = [mem, file, bad]
StepLen(s, o, b) ==
  IF s.bad # "" THEN s
  ELSE CASE o.op = "append" -> IF ~b.r THEN Bad(s, "append fails") ELSE [s EXCEPT !.mem = s.mem + o.n]
         [] o.op = "save" -> IF ~b.r THEN Bad(s, "save fails") ELSE [s EXCEPT !.file = s.mem]
         [] o.op = "bulk" -> IF ~b.r THEN Bad(s, "bulk writing fails") ELSE [s EXCEPT !.file = o.n]
         [] o.op = "reload" -> IF ~b.r THEN Bad(s, "reload fails") ELSE [s EXCEPT !.mem = s.file]
         [] o.op = "read" -> IF b.n # s.file THEN Bad(s, "read: number of samples")
                             ELSE IF ~b.same THEN Bad(s, "read: other samples") ELSE s
         [] o.op = "look" -> IF b.count # s.mem THEN Bad(s, "stored sample count")
                             ELSE IF b.blocks # Blocks(s.mem) THEN Bad(s, "blocks")
                             ELSE IF b.n # s.mem THEN Bad(s, "number of samples")
                             ELSE IF b.bitdepth # 5 THEN Bad(s, "bit depth") ELSE s
         [] o.op = "file" -> IF b.len # FileLen(s.file) THEN Bad(s, "length of the file")
                             ELSE IF s.file = s.mem /\ ~b.bulk_same THEN Bad(s, "not the file that bulk writing gives") ELSE s
\* in full: mem and file are series; file is wrapped, as there may be none
StepFull(s, o, b) ==
  IF s.bad # "" THEN s
  ELSE CASE o.op = "append" -> IF ~b.r THEN Bad(s, "append fails") ELSE [s EXCEPT !.mem = s.mem \o o.words]
         [] o.op = "save" -> IF ~b.r THEN Bad(s, "save fails") ELSE [s EXCEPT !.file = <<s.mem>>]
         [] o.op = "bulk" -> IF ~b.r THEN Bad(s, "bulk writing fails") ELSE [s EXCEPT !.file = <<o.words>>]
         [] o.op = "reload" -> IF ~b.r THEN Bad(s, "reload fails") ELSE [s EXCEPT !.mem = s.file[1]]
         [] o.op = "put" -> LET g == GetWbro(o.put) IN [s EXCEPT !.file = IF HeaderOk(o.put) THEN <<g[1].data>> ELSE <<>>]
         [] o.op = "read" -> IF s.file = <<>>
                             THEN (IF b.n = None THEN s ELSE Bad(s, "a file without the marks is not refused with an error"))
                             ELSE IF ~Has(b, "data") THEN Bad(s, "read fails")
                             ELSE IF b.data # s.file[1] THEN Bad(s, "read: other samples") ELSE s
         [] o.op = "look" -> IF b.count # Len(s.mem) THEN Bad(s, "stored sample count")
                             ELSE IF b.blocks # Blocks(Len(s.mem)) THEN Bad(s, "blocks")
                             ELSE IF b.data # s.mem THEN Bad(s, "other samples") ELSE s
         [] o.op = "file" -> IF b.bytes # PutWbro(s.file[1]) THEN Bad(s, "layout of the file")
                             ELSE IF s.file[1] = s.mem /\ ~b.bulk_same THEN Bad(s, "not the file that bulk writing gives") ELSE s

Judge(ev) ==
  IF Has(ev, "died") THEN "the session fails"
  ELSE IF ev.full
  THEN FoldLeft(LAMBDA s, k : StepFull(s, ev.ops[k], ev.obs[k]), [mem |-> <<>>, file |-> <<>>, bad |-> ""], [k \in 1..Len(ev.ops) |-> k]).bad
  ELSE FoldLeft(LAMBDA s, k : StepLen(s, ev.ops[k], ev.obs[k]), [mem |-> 0, file |-> None, bad |-> ""], [k \in 1..Len(ev.ops) |-> k]).bad
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
