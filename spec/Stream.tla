------------------------------- MODULE Stream -------------------------------
(* The life of a compressed stream: chunks are added as frames, the stream is *)
(* written to disk, a crash or a stranger changes the bytes, a reader loads   *)
(* them. The reader gets the concatenation of the frames, or refuses.         *)
EXTENDS Codecs, Json

CONSTANTS MaxFrames, Chunks, AllCuts
VARIABLES mem,        \* frames added so far: [codec, count, payload, series]
          disk,       \* bytes
          written,    \* the frames whose bytes are on disk
          state,      \* what happened to the bytes: none, whole, torn, foreign, newer, older
          seen        \* what the last reader got: none, refused, or the series

vars == <<mem, disk, written, state, seen>>

\* the chunks a user adds: codec and series
A == <<FromInt(3), FromInt(3), FromInt(-4)>>
B == <<FromInt(200), FromInt(200)>>
D == <<<<0, 0, 0, 16352>>, FromInt(70000), FromInt(0), FromInt(0)>>
One == <<FromInt(9)>>
ChunkList == <<[codec |-> "rle", series |-> A], [codec |-> "constant", series |-> B], [codec |-> "noop", series |-> A],
               [codec |-> "rle", series |-> D], [codec |-> "constant", series |-> One], [codec |-> "noop", series |-> One]>>
ChunkSet == {1, 2, 3, 4, 5, 6}

FrameOf(c) == [codec |-> c.codec, count |-> Len(c.series), payload |-> EncPlain(c.codec, c.series)]
Decode(f) == CASE f.codec = "rle" -> DecRle(f.count, f.payload)
               [] f.codec = "constant" -> DecConstant(f.count, f.payload)
               [] f.codec = "noop" -> DecNoop(f.payload)
ReadAll(b) == LET g == GetStream(b)
              IN IF g = Fail THEN <<>>
                 ELSE <<FoldLeft(LAMBDA acc, f : acc \o Decode(f)[1], <<>>, g[1].frames)>>
Whole(fs) == FoldLeft(LAMBDA acc, f : acc \o f.series, <<>>, fs)

Init == mem = <<>> /\ disk = <<>> /\ written = <<>> /\ state = "none" /\ seen = [st |-> "none", val |-> <<>>]
AddChunk == /\ Len(mem) < MaxFrames
       /\ state = "none"
       /\ \E k \in Chunks : LET c == ChunkList[k] f == FrameOf(c)
                            IN mem' = Append(mem, [codec |-> f.codec, count |-> f.count, payload |-> f.payload, series |-> c.series, k |-> k])
       /\ UNCHANGED <<disk, written, state, seen>>
Write == /\ state = "none"
         /\ disk' = PutStream(CurrentVersion, mem)
         /\ written' = mem /\ state' = "whole"
         /\ UNCHANGED <<mem, seen>>
Emit == PrintT("@" \o ToJson([bytes |-> disk', state |-> state', chunks |-> [k \in 1..Len(mem) |-> mem[k].k]]))
\* a crash while writing leaves any prefix
Tear == /\ state = "whole" /\ seen.st = "none"
        /\ \E k \in 0..(Len(disk) - 1) : (AllCuts \/ k \in {0, 3, 8, 9, 10, Len(disk) - 1}) /\ disk' = SubSeq(disk, 1, k)
        /\ state' = "torn" /\ UNCHANGED <<mem, written, seen>>
\* not a stream at all
Spoil == /\ state = "whole" /\ seen.st = "none"
         /\ \E p \in 1..4, d \in {1, 32, 255} : disk' = [disk EXCEPT ![p] = (@ + d) % 256]
         /\ state' = "foreign" /\ UNCHANGED <<mem, written, seen>>
Upgrade == /\ state = "whole" /\ seen.st = "none"
           /\ \E v \in {<<2, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 1, 0, 0>>, <<0, 0, 1, 0>>, <<1, 0, 0, 1>>, <<255, 255, 255, 255>>, <<3, 0, 0, 128>>, <<0, 0, 0, 128>>} :
                disk' = [k \in 1..Len(disk) |-> IF k \in 5..8 THEN v[k - 4] ELSE disk[k]]
           /\ state' = "newer" /\ UNCHANGED <<mem, written, seen>>
Downgrade == /\ state = "whole" /\ seen.st = "none"
             /\ disk' = [disk EXCEPT ![5] = 0]
             /\ state' = "older" /\ UNCHANGED <<mem, written, seen>>
Load == /\ state # "none" /\ seen.st = "none"
        /\ LET r == ReadAll(disk) IN seen' = IF r = <<>> THEN [st |-> "refused", val |-> <<>>] ELSE [st |-> "got", val |-> r[1]]
        /\ UNCHANGED <<mem, disk, written, state>>
Next == \/ AddChunk
        \/ (Write /\ Emit)
        \/ ((Tear \/ Spoil \/ Upgrade \/ Downgrade) /\ Emit)
        \/ Load

\* the reader gets the frames, whole, or nothing
WholeOrNothing == seen.st # "none" =>
                    IF state \in {"whole", "older"} THEN seen.st = "got" /\ SeqNumEq(seen.val, Whole(written))
                    ELSE seen.st = "refused"
FrameCount == state = "whole" => disk[9] = Len(written) /\ Len(disk) >= 10
=============================================================================
