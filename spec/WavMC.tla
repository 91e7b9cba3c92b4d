------------------------------- MODULE WavMC -------------------------------
(* All small WAV files: channels, where an extra chunk stands, and frames     *)
(* over words that make up NaNs, infinities, zeros and everything else.       *)
EXTENDS Wav, TLC, Json

CONSTANTS MaxFrames, Words
VARIABLES ch, extra, frames, ph

vars == <<ch, extra, frames, ph>>
Init == ch \in 1..4 /\ extra \in {"none", "first", "between"} /\ frames = <<>> /\ ph = "frames"
\* the upper word decides about NaN, the others about its payload
Tops == {0, 1, 16368, 32751, 32752, 32753, 32760, 65519, 65520, 65528, 65535, 32768}
Frames(c) == IF c < 4 THEN [1..c -> Words] ELSE {<<a, 0, b, t>> : a \in Words, b \in Words, t \in Tops} \cup {<<a, b, 0, t>> : a \in Words, b \in Words, t \in Tops}
AddFrame == /\ ph = "frames" /\ Len(frames) < MaxFrames
            /\ \E f \in Frames(ch) : frames' = Append(frames, f)
            /\ UNCHANGED <<ch, extra, ph>>
Emit == /\ ph = "frames" /\ ph' = "emitted" /\ UNCHANGED <<ch, extra, frames>>
        /\ PrintT("@" \o ToJson([bytes |-> PutWav(ch, 44100, extra, frames), frames |-> frames]))
Next == AddFrame \/ Emit
Sane == /\ IsWav(PutWav(ch, 8000, extra, frames))
        /\ Len(Series(frames)) <= Len(frames)
        /\ ch < 4 => Len(Series(frames)) = Len(frames)
=============================================================================
