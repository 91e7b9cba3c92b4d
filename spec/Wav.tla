-------------------------------- MODULE Wav --------------------------------
(* Legacy WAV files: RIFF/WAVE with a PCM format of 16-bit words and a data   *)
(* chunk of frames, one word per channel. A sample is the 64-bit float whose  *)
(* words, least significant first, are the channels of a frame.               *)
EXTENDS Integers, Sequences, SequencesExt

RIFF == <<82, 73, 70, 70>>
WAVE == <<87, 65, 86, 69>>
FMT == <<102, 109, 116, 32>>
DATA == <<100, 97, 116, 97>>
LIST == <<76, 73, 83, 84>>

Byte(n, k) == (n \div (256 ^ k)) % 256
LE(n, size) == [k \in 1..size |-> Byte(n, k - 1)]
PutWord(w) == LE(w, 2)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Chunk(id, body) == id \o LE(Len(body), 4) \o body \o (IF Len(body) % 2 = 1 THEN <<0>> ELSE <<>>)
Format(ch, rate) == Chunk(FMT, LE(1, 2) \o LE(ch, 2) \o LE(rate, 4) \o LE(rate * 2 * ch, 4) \o LE(2 * ch, 2) \o LE(16, 2))
Body(frames) == Flat([k \in 1..Len(frames) |-> Flat([j \in 1..Len(frames[k]) |-> PutWord(frames[k][j])])])
\* extra: a chunk that says nothing, before the format ("first"), between ("between"), or none
Extra == Chunk(LIST, <<73, 78, 70, 79, 1, 2>>)
PutWav(ch, rate, extra, frames) ==
  LET rest == WAVE \o (IF extra = "first" THEN Extra ELSE <<>>) \o Format(ch, rate) \o (IF extra = "between" THEN Extra ELSE <<>>) \o Chunk(DATA, Body(frames))
  IN RIFF \o LE(Len(rest), 4) \o rest

\* frames of fewer than 4 channels leave the upper words 0
SampleOf(frame) == [k \in 1..4 |-> IF k <= Len(frame) THEN frame[k] ELSE 0]
IsNaN(w) == (w[4] \div 16) % 2048 = 2047 /\ (w[4] % 16 # 0 \/ w[3] # 0 \/ w[2] # 0 \/ w[1] # 0)
Series(frames) == SelectSeq([k \in 1..Len(frames) |-> SampleOf(frames[k])], LAMBDA w : ~IsNaN(w))

IsWav(b) == Len(b) >= 12 /\ SubSeq(b, 1, 4) = RIFF /\ SubSeq(b, 9, 12) = WAVE
=============================================================================
