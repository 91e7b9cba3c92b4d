------------------------------- MODULE DirMC -------------------------------
(* Directories mixing files that are eligible, files that are not, short      *)
(* ones, and subdirectories with files in them. The directory command visits  *)
(* the entries in some order; whatever the order, the result is that of the   *)
(* files one by one. Every directory is emitted, to be replayed.              *)
EXTENDS Cli, TLC, Json

CONSTANTS Kinds, MaxFiles
VARIABLES files,       \* content kinds, in order of names
          fs, left, cmd, ph

vars == <<files, fs, left, cmd, ph>>
\* d/a.wbro, d/.h, d/c, d/b.dat, d/e.bro
Dir == <<100>>
NameList == << <<100, 47, 97, 46, 119, 98, 114, 111>>, <<100, 47, 46, 104>>, <<100, 47, 99>>, <<100, 47, 98, 46, 100, 97, 116>>, <<100, 47, 101, 46, 98, 114, 111>> >>
Inner == Dir \o <<47, 115, 47, 105>>        \* d/s/i: a file in a subdirectory

Init == files = <<>> /\ fs = {} /\ left = {} /\ cmd \in {"compress", "decompress"} /\ ph = "fill"
Wanted == IF cmd = "compress" THEN "wbro" ELSE "bro"
OutExt == IF cmd = "compress" THEN BroExt ELSE WbroExt
Made(k) == IF cmd = "compress" THEN <<"bro", k>> ELSE <<"wbro", k>>
Fill == /\ ph = "fill" /\ Len(files) < MaxFiles
        /\ \E k \in Kinds : files' = Append(files, k)
        /\ UNCHANGED <<fs, left, cmd, ph>>
Content(k) == <<files[k], k>>
Start == /\ ph = "fill" /\ files # <<>>
         /\ fs' = {<<NameList[k], Content(k)>> : k \in 1..Len(files)} \cup {<<Inner, <<Wanted, 0>>>>}
         /\ left' = 1..Len(files)
         /\ ph' = "visit" /\ UNCHANGED <<files, cmd>>
         /\ PrintT("@" \o ToJson([files |-> files, cmd |-> cmd]))
\* the entry is processed with the content it has when it is visited
Visit == /\ ph = "visit" /\ left # {}
         /\ \E k \in left :
              /\ left' = left \ {k}
              /\ LET c == Get(fs, NameList[k]) IN
                 fs' = IF c[1] = Wanted THEN Put(fs, WithExt(NameList[k], OutExt), Made(c[2])) ELSE fs
         /\ UNCHANGED <<files, cmd, ph>>
Next == Fill \/ Start \/ Visit

\* one by one, from the same directory
Before == {<<NameList[k], Content(k)>> : k \in 1..Len(files)} \cup {<<Inner, <<Wanted, 0>>>>}
Outputs == {<<WithExt(NameList[k], OutExt), Made(k)>> : k \in {q \in 1..Len(files) : files[q] = Wanted}}
OneByOne == {f \in Before : ~\E o \in Outputs : o[1] = f[1]} \cup Outputs
\* (names are such that no two eligible files have the same output, and no output is another eligible input)
Confluent == (ph = "visit" /\ left = {}) => fs = OneByOne
SubdirsAlone == ph = "visit" => Get(fs, Inner) = <<Wanted, 0>>
=============================================================================
