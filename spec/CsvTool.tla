------------------------------ MODULE CsvTool ------------------------------
(* The CSV tool (csv-compressor) as a machine over a directory tree: which    *)
(* files a run writes, under which names, and what is in them. What the       *)
(* contents are made of comes as a parameter (parts): in CsvToolMC from a     *)
(* small abstract table, in CsvToolTrace from a run of the tool by itself in  *)
(* an empty directory and from the library.                                   *)
EXTENDS Cli

\* a run: [cmd, name, out, raw, index, pack]; out is <<>> when no -o is given
Base(r) == IF r.out = <<>> THEN r.name ELSE r.out
\* what it is to write, in this order: pairs of extension and part
Asked(r) ==
  IF r.cmd = "compress"
  THEN (IF r.raw THEN <<<<WavbroExt, "raw">>>> ELSE <<>>) \o (IF r.index THEN <<<<VsriExt, "index">>>> ELSE <<>>)
       \o (IF r.pack THEN <<<<BroExt, "bro">>>> ELSE <<>>)
  ELSE <<<<WbroExt, "raw">>, <<CsvExt, "rows">>>>
Folder(name) == LET from == FoldLeft(LAMBDA a, k : IF name[k] = Slash THEN k ELSE a, 0, [k \in 1..Len(name) |-> k])
                IN IF from = 0 THEN <<>> ELSE SubSeq(name, 1, from - 1)
IndexOf(r) == WithExt(r.name, VsriExt)
\* the tree after a run that works
Written(fs, r, parts) == FoldLeft(LAMBDA t, w : Put(t, WithExt(Base(r), w[1]), parts[w[2]]), fs, Asked(r))
\* does the run have what it needs: it reads its input, and for the way back the index next to the input
Missing(fs, r, folders) == \/ ~Has(fs, r.name)
                           \/ r.name \in folders
                           \/ r.cmd = "uncompress" /\ ~Has(fs, IndexOf(r))
NoPlace(fs, r, folders) == Asked(r) # <<>> /\ Folder(Base(r)) # <<>> /\ Folder(Base(r)) \notin folders
=============================================================================
