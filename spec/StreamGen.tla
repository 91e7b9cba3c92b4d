----------------------------- MODULE StreamGen -----------------------------
(* Streams that follow the layout but that the compressor itself would not    *)
(* write: any admissible width, other orders of runs, absent or duplicate     *)
(* starts, freely chosen knots and frequencies, earlier version numbers. A    *)
(* writer builds a stream frame by frame; every complete stream is emitted.   *)
EXTENDS PutMore, Recon, Json, IOUtils

CONSTANTS MaxFrames, Big
VARIABLES frames, version, task, stated

H == <<0, 0, 0, 16352>>              \* 0.5
W(n) == FromInt(n)

Consts ==
  [n : {1, 2, 5, 260}, p : {PutConstant(U8W, W(7)), PutConstant(I16W, W(7)), PutConstant(I32W, W(-7)), PutConstant(F64W, W(7)), PutConstant(F64W, H),
                    PutConstant(U8W, W(255)), PutConstant(I16W, W(-32768)), PutConstant(I32W, W(2147483647)), PutConstant(I32W, W(-2147483647 - 1))}]
Noops == {<<>>, <<0>>, <<1, -1, 250, 251, 65535, 65536>>, <<125, 126, -125, -126, 32767, -32769>>, <<1073741823, -1073741824, 2147483647, -2147483647>>}
NoopFrames == {[n |-> Len(s), p |-> <<IdNoop>> \o PutVec(PutI, s)] : s \in Noops}
RunSets ==
  \* run starts of two or three values: ordered or not, without a start at 0, starts in any order within a value
  {<<<<W(1), <<0>>>>>>, <<<<W(1), <<0, 2>>>>, <<W(2), <<1, 3>>>>>>, <<<<W(2), <<1, 3>>>>, <<W(1), <<0, 2>>>>>>,
   <<<<W(1), <<2, 0>>>>, <<W(2), <<3, 1>>>>>>, <<<<W(5), <<2>>>>>>, <<<<W(5), <<2>>>>, <<W(6), <<4>>>>>>,
   <<<<W(0), <<0>>>>, <<W(255), <<250>>>>, <<W(3), <<251>>>>, <<W(9), <<256>>>>>>, <<>>}
WideRunSets == {<<<<W(-1), <<0>>>>, <<W(300), <<1>>>>>>, <<<<W(32767), <<0>>>>, <<W(-32768), <<1>>>>>>}
FloatRunSets == {<<<<H, <<0>>>>, <<W(-1), <<1>>>>>>, <<<<<<1, 0, 0, 0>>, <<0>>>>, <<W(1), <<2>>>>>>}
RleFrames ==
  {[n |-> k, p |-> PutRuns(w, r)] : k \in {4, 6, 260}, w \in {U8W, I16W, I32W, F64W}, r \in RunSets}
  \cup {[n |-> k, p |-> PutRuns(w, r)] : k \in {3, 6}, w \in {I16W, I32W, F64W}, r \in WideRunSets}
  \cup {[n |-> k, p |-> PutRuns(F64W, r)] : k \in {3, 6}, r \in FloatRunSets}
KnotValues(k) == IF k = 1 THEN {<<7>>} ELSE
                 {[i \in 1..k |-> i], [i \in 1..k |-> IF i % 2 = 0 THEN 90 ELSE 3],
                  [i \in 1..k |-> IF i = 2 THEN 100 ELSE 0], [i \in 1..k |-> (i * i * 7) % 31]}
Steps == 1..5
KnotFrames(id, ns) ==
  UNION {LET k == Len(KnotAt(n, st)) IN
         {[n |-> n, p |-> PutKnots(id, w, v, lo, hi, st)] :
            w \in {U8W, I32W, F64W}, v \in KnotValues(k),
            \* the limits bite, or not
            lo \in {-20, 2}, hi \in {80, 120}} : n \in ns, st \in Steps}
  \cup {[n |-> 6, p |-> PutKnots(id, F64W, <<>>, 4, 4, 1)]}
SignedKnotFrames(id, ns) ==
  UNION {LET k == Len(KnotAt(n, st)) IN
         {[n |-> n, p |-> PutKnots(id, w, [i \in 1..k |-> IF i % 3 = 0 THEN -60 ELSE 11 * i - 50], -90, 90, st)] : w \in {I16W, F64W}}
         : n \in ns, st \in Steps}
FreqSets(nn) ==
  LET half == nn \div 2
      good == {f \in 0..half : CosOk(f, nn)}
  IN {{<<f, re, im>>} : f \in good, re \in {100}, im \in {0, 40}}
     \cup {{<<0, 200, 0>>, <<f, 50, -30>>} : f \in good \ {0}}
     \cup {{<<p[1], 90, 20>>, <<p[2], -70, 10>>} : p \in {q \in (good \ {0}) \X (good \ {0}) : q[1] # q[2]}}
FftSizes == {2, 3, 4, 5, 6, 8, 12, 16, 24, 48} \cup (IF Big THEN {127, 128, 130, 143, 144, 192, 255, 256, 287} ELSE {128, 143, 144})
FftFrames(n) ==
  {[n |-> n, p |-> PutFft(SetToSeq(fs), hi, 0 - hi)] : fs \in FreqSets(Padded(n)), hi \in {5, 900}}
  \cup {[n |-> n, p |-> PutFft(<<>>, 3, 3)], [n |-> n, p |-> PutFft(<<>>, 9, -9)]}

F(codec, set) == {[codec |-> codec, count |-> x.n, payload |-> x.p] : x \in set}
\* what a writer sets out to write: a codec and (for those with many forms) a number of samples
Tasks == {[codec |-> c, n |-> 0] : c \in {"constant", "noop", "rle", "several"}}
         \cup {[codec |-> "polynomial", n |-> n] : n \in IF Big THEN 1..24 ELSE {1, 2, 3, 4, 5, 7, 9, 10, 11, 16, 21}}
         \cup {[codec |-> "idw", n |-> n] : n \in IF Big THEN 1..10 ELSE {1, 2, 4, 5, 7, 10}}
         \cup {[codec |-> "fft", n |-> n] : n \in FftSizes}
FramesOf(t) ==
  CASE t.codec = "constant" -> F("constant", Consts)
    [] t.codec = "noop" -> F("noop", NoopFrames)
    [] t.codec = "rle" -> F("rle", RleFrames)
    [] t.codec = "polynomial" -> F("polynomial", KnotFrames(IdPolynomial, {t.n}) \cup SignedKnotFrames(IdPolynomial, {t.n}))
    [] t.codec = "idw" -> F("idw", KnotFrames(IdIdw, {t.n}) \cup SignedKnotFrames(IdIdw, {t.n}))
    [] t.codec = "fft" -> F("fft", FftFrames(t.n))
    [] t.codec = "several" -> {}
\* a few of each kind, to be combined
Few == {[codec |-> "constant", count |-> 3, payload |-> PutConstant(I16W, W(-9))],
        [codec |-> "rle", count |-> 6, payload |-> PutRuns(F64W, <<<<W(2), <<1, 3>>>>, <<H, <<0, 2>>>>>>)],
        [codec |-> "polynomial", count |-> 7, payload |-> PutKnots(IdPolynomial, U8W, <<9, 1, 8, 2>>, 0, 9, 2)],
        [codec |-> "fft", count |-> 4, payload |-> PutFft(<<<<1, 8, 4>>>>, 9, -9)],
        [codec |-> "noop", count |-> 2, payload |-> <<IdNoop>> \o PutVec(PutI, <<-5, 70000>>)]}

\* what another writer might give as the size of a frame
OtherSizes == {0, 1, 40, 250, 251, 65536}
Init == frames = <<>> /\ version = CurrentVersion /\ task \in Tasks /\ stated = FrameSizeField
Write(f) == frames' = Append(frames, f) /\ UNCHANGED <<version, task, stated>>
Older == frames # <<>> /\ version = CurrentVersion /\ version' = 0 /\ UNCHANGED <<frames, task, stated>>
Restate == /\ Len(frames) \in 1..2 /\ version = CurrentVersion /\ stated = FrameSizeField
           /\ stated' \in OtherSizes /\ UNCHANGED <<frames, version, task>>
BytesOf(v, s, fs) == PutHeader(v, Len(fs)) \o PutVec(LAMBDA f : PutSized(s, CodecNo[f.codec], f.count, f.payload), fs)
Bytes == BytesOf(version, stated, frames)
Emit == PrintT("@" \o ToJson([bytes |-> BytesOf(version', stated', frames')]))
Next == /\ IF task.codec # "several" THEN frames = <<>> /\ \E f \in FramesOf(task) : Write(f)
           ELSE \/ Len(frames) < MaxFrames /\ version = CurrentVersion /\ stated = FrameSizeField /\ \E f \in Few : Write(f)
                \/ Older
                \/ Restate
        /\ Emit

\* every written stream is a stream, with exactly these frames, and none of its prefixes is
Parses == LET g == GetStream(Bytes)
          IN /\ g # Fail
             /\ g[1].version = version /\ g[1].count = Len(frames) /\ Len(g[1].frames) = Len(frames)
             /\ \A k \in 1..Len(frames) : /\ g[1].frames[k].codec = frames[k].codec /\ g[1].frames[k].count = frames[k].count
                                          /\ g[1].frames[k].payload = frames[k].payload
AllWellFormed == \A k \in 1..Len(frames) : WellFormed(frames[k])
\* what is emitted is exactly what the reconstruction can judge
Judged == \A k \in 1..Len(frames) :
            LET f == frames[k] IN
            CASE f.codec \in {"polynomial", "idw"} ->
                   LET g == GetInterpolated(f.payload)[1]
                   IN NumEq(g.min, g.max) \/ Len(g.knots) = f.count \/ CanInterpolate(g, f.count)
                      \/ (f.codec = "idw" /\ Len(g.knots) > 4)
              [] f.codec = "fft" -> LET g == GetFft(f.payload)[1] IN NumEq(g.min, g.max) \/ CanTransform(g, f.count)
              [] OTHER -> TRUE
Torn == Len(Bytes) <= 40 => \A k \in 0..(Len(Bytes) - 1) : GetStream(SubSeq(Bytes, 1, k)) = Fail
=============================================================================
