----------------------------- MODULE CodecTrace -----------------------------
(* Judges recorded calls of the compressor against the properties of series,  *)
(* frames and streams. Each event is judged on its own (it records one whole  *)
(* session with one stream), so that every event is an initial state and the  *)
(* workers judge them in parallel.                                            *)
(*                                                                            *)
(* Events carry what was passed in and what was observed, never a verdict:    *)
(* series are sequences of F64 words, bytes are sequences of integers.        *)
EXTENDS Spectrum, Choice, Spacing, Json, IOUtils

CONSTANT Prop
VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Has(e, f) == f \in DOMAIN e
Idx(s) == [k \in 1..Len(s) |-> k]

------------------------------------------------------------------------------
(* Error bounds *)
\* the sum of relative errors sum stays within e hundredths per sample (plus the rounding of the bound to
\* single precision, and of the measurement)
Slack(n, e) == IF e = 0 THEN <<>> ELSE NatB(2 * e * n + 300 * n)
Scaled(sum) == MulS(SumUnits(sum), 100)
BoundOf(n, e) == Shl(NatB(n * e), 24)
Within(sum, n, e) == sum # Infinite /\ Cmp(Scaled(sum), Add(BoundOf(n, e), Slack(n, e))) <= 0
\* certainly within, whatever the rounding
SurelyWithin(sum, n, e) == /\ sum # Infinite
                           /\ \/ sum = <<0, 0>>
                              \/ Cmp(Add(Scaled(sum), Slack(n, e)), BoundOf(n, e)) <= 0

\* is the mean error that a codec reports (a double) the mean of the errors
ReportedOk(reported, sum, n) ==
  IF sum = Infinite THEN ~IsFinite(reported)
  ELSE /\ IsFinite(reported)
       /\ ~Neg(reported) \/ IsZero(reported)
       /\ LET r == MulS(UnitsOf(reported), n)
              u == SumUnits(sum)
              tol == Add(Shr(u, 20), NatB(2 * n))
          IN IF sum[1] >= 1048576 THEN Cmp(r, Shr(u, 1)) >= 0       \* saturated
             ELSE Cmp(r, Add(u, tol)) <= 0 /\ Cmp(u, Add(r, tol)) <= 0

------------------------------------------------------------------------------
(* Frames *)
Clean(s) == SelectSeq(s, IsFinite)
\* a stream split by the sample counts of its frames: <<from, to>>
Spans(frames) ==
  FoldLeft(LAMBDA acc, f : Append(acc, <<IF acc = <<>> THEN 1 ELSE acc[Len(acc)][2] + 1,
                                        (IF acc = <<>> THEN 0 ELSE acc[Len(acc)][2]) + f.count>>), <<>>, frames)
Total(frames) == FoldLeft(LAMBDA a, f : a + f.count, 0, frames)
Part(s, span) == SubSeq(s, span[1], span[2])

\* partition rules
SizeOk(sizes) ==
  /\ \A k \in 1..Len(sizes) : sizes[k] >= 1 /\ sizes[k] <= 131072
  /\ \A k \in 1..(Len(sizes) - 1) : sizes[k] >= 512 /\ \E p \in 9..17 : sizes[k] = Pow2(p)
  /\ sizes # <<>> => LET l == sizes[Len(sizes)] IN l <= 512 \/ \E p \in 9..17 : l = Pow2(p)
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

------------------------------------------------------------------------------
(* A frame's samples out against the samples s they stand for *)
InRange(codec, s, out) ==
  LET lo == MinOf(s)
      hi == MaxOf(s)
      flo == IF codec = "fft" THEN ToF32(lo) ELSE lo
      fhi == IF codec = "fft" THEN ToF32(hi) ELSE hi
      l == IF Less(flo, lo) THEN flo ELSE lo
      h == IF Less(hi, fhi) THEN fhi ELSE hi
  IN \A k \in 1..Len(out) : Leq(l, out[k]) /\ Leq(out[k], h)
\* equal up to rounding to 5 decimals (or to the precision of a double)
NearlyEqual(x, y) ==
  \/ NumEq(x, y)
  \/ LET d == AbsDiff(x, y)
     IN \/ (Pow(x) >= d[2] /\ Cmp(Shl(d[1], 50), Shl(Mant(x), Pow(x) - d[2])) <= 0)
        \* |d| * 200000 <= 1 + 2^-20
        \/ LET a == MulS(MulS(d[1], 20000), 10)
               p == d[2]
           IN p < 0 /\ Cmp(Shl(a, 20), Shl(<<1, 32>>, 0 - p)) <= 0
EndsOk(s, out) == NearlyEqual(s[1], out[1]) /\ NearlyEqual(s[Len(s)], out[Len(out)])

------------------------------------------------------------------------------
(* pipe: a series through planning, compression, bytes and decompression      *)
(*   mode, e (percent), level, data, bytes, out | panic                       *)
JudgePipe(ev) ==
  IF Has(ev, "panic") THEN "the pipeline fails"
  ELSE
  LET s == Clean(ev.data)
      got == GetStream(ev.bytes)
  IN IF got = Fail THEN "the bytes are not a stream"
     ELSE
     LET st == got[1]
         spans == Spans(st.frames)
         whole == Total(st.frames) = Len(s) /\ Len(ev.out) = Len(s)
     IN CASE Prop = "C03" ->
               IF Len(ev.out) # Len(s) THEN "number of samples"
               ELSE IF ~AllFinite(ev.out) THEN "a sample that is not finite"
               ELSE IF Total(st.frames) # Len(s) THEN "sample counts of the frames"
               ELSE ""
          [] Prop = "C02" -> IF ~SeqNumEq(s, ev.out) THEN "not lossless" ELSE ""
          [] Prop = "C01" ->
               IF ~whole THEN "number of samples"
               ELSE IF \E k \in 1..Len(spans) :
                         ~Within(SumErr(Part(s, spans[k]), Part(ev.out, spans[k])),
                                 spans[k][2] - spans[k][1] + 1, ev.e)
                    THEN "the error of a frame exceeds the maximum" ELSE ""
          [] Prop = "C13" ->
               IF ~whole THEN "number of samples"
               ELSE IF \E k \in 1..Len(spans) : ~InRange(st.frames[k].codec, Part(s, spans[k]), Part(ev.out, spans[k]))
                    THEN "out of the range of the frame"
               ELSE IF ev.mode \in {"polynomial", "idw"}
                       /\ \E k \in 1..Len(spans) : ~EndsOk(Part(s, spans[k]), Part(ev.out, spans[k]))
                    THEN "first or last sample of a frame"
               ELSE ""
          [] Prop = "C08" ->
               IF ~SizeOk([k \in 1..Len(st.frames) |-> st.frames[k].count]) THEN "sizes of the frames"
               ELSE IF Total(st.frames) # Len(s) THEN "samples covered" ELSE ""
          [] Prop = "C04" -> IF ~SeqNumEq(s, ev.out) THEN "not the same series" ELSE ""
          [] OTHER -> ""

------------------------------------------------------------------------------
(* codec: one codec called on one series                                      *)
(*   codec, how, e, data, bytes, out, err | panic                             *)
JudgeCodec(ev) ==
  IF Has(ev, "panic") THEN "the codec fails"
  ELSE CASE Prop = "C04" -> IF SeqNumEq(ev.data, ev.out) THEN "" ELSE "not the same series"
         [] Prop = "C05" ->
              IF ev.codec = "noop"
              THEN (IF SeqNumEq([k \in 1..Len(ev.data) |-> Rounded(ev.data[k])], ev.out) THEN "" ELSE "not rounded")
              ELSE (IF SeqNumEq(ev.data, ev.out) THEN "" ELSE "not the constant")
         [] Prop = "C06" ->
              IF Len(ev.out) # Len(ev.data) THEN "number of samples"
              ELSE IF ReportedOk(ev.err, SumErr(ev.data, ev.out), Len(ev.data)) THEN ""
              ELSE "the reported error is not the error of the output"
         [] Prop = "C10" -> IF ev.bytes = EncPlain(ev.codec, ev.data) THEN "" ELSE "payload"
         [] OTHER -> ""

------------------------------------------------------------------------------
(* auto: one frame compressed in auto mode, and by each candidate             *)
(*   e, data, bytes, cand : sequence of [codec, bytes, out]                   *)
JudgeAuto(ev) ==
  IF Has(ev, "panic") THEN "auto fails"
  ELSE
  LET got == GetStream(ev.bytes)
      n == Len(ev.data)
  IN IF got = Fail THEN "the bytes are not a stream"
     ELSE IF Len(got[1].frames) # 1 THEN "the bytes are not a stream of one frame"
     ELSE
     LET f == got[1].frames[1]
         flat == NumEq(MinOf(ev.data), MaxOf(ev.data))
     IN IF flat THEN (IF f.codec = "constant" THEN "" ELSE "equal samples, but not a constant frame")
        ELSE
        LET sums == [k \in 1..Len(ev.cand) |-> SumErr(ev.data, ev.cand[k].out)]
            mine == {k \in 1..Len(ev.cand) : ev.cand[k].codec = f.codec}
        IN IF mine = {} THEN "not a candidate"
           ELSE LET m == CHOOSE k \in mine : TRUE
                IN IF ~Within(sums[m], n, ev.e) THEN "the chosen candidate is not within the bound"
                   ELSE IF \E k \in 1..Len(ev.cand) :
                             SurelyWithin(sums[k], n, ev.e) /\ Len(ev.cand[k].bytes) < Len(f.payload)
                        THEN "a smaller candidate is within the bound"
                   ELSE ""

------------------------------------------------------------------------------
(* level: one frame compressed in auto mode at a sample level, by each        *)
(* candidate, and the samples looked at by each candidate                     *)
(*   e, level, data, bytes, cand, part : sequence of [codec, bytes, out]      *)
JudgeLevel(ev) ==
  IF Has(ev, "panic") THEN "auto fails"
  ELSE
  LET got == GetStream(ev.bytes)
      n == Len(ev.data)
      sampled == Sampled(ev.level, n)
  IN IF got = Fail THEN "the bytes are not a stream"
     ELSE IF Len(got[1].frames) # 1 THEN "the bytes are not a stream of one frame"
     ELSE
     LET f == got[1].frames[1]
         flat == NumEq(MinOf(ev.data), MaxOf(ev.data))
         at(list, c) == list[CHOOSE k \in 1..Len(list) : list[k].codec = c]
         by(list, k) == TLCEval([c \in Candidates |-> SumErr(SubSeq(ev.data, 1, k), at(list, c).out)])
         may(s, k) == [c \in Candidates |-> Within(s[c], k, ev.e)]
         sure(s, k) == [c \in Candidates |-> SurelyWithin(s[c], k, ev.e)]
         size(list) == [c \in Candidates |-> Len(at(list, c).bytes)]
     IN IF flat THEN (IF f.codec = "constant" THEN "" ELSE "equal samples, but not a constant frame")
        ELSE IF f.codec \notin Candidates THEN "not a candidate"
        ELSE IF f.payload # at(ev.cand, f.codec).bytes THEN "the frame is not what its codec makes of all samples"
        ELSE
        LET whole == by(ev.cand, n)
        IN IF ~sampled THEN (IF f.codec \in Smallest(may(whole, n), sure(whole, n), size(ev.cand)) THEN "" ELSE "a shorter frame is not stored as at level 0")
           ELSE LET k == Prefix(ev.level)
                    first == by(ev.part, k)
                    sug == Smallest(may(first, k), sure(first, k), size(ev.part))
                IN IF f.codec \in Stored(sug, may(whole, n), sure(whole, n)) THEN "" ELSE "the choice is not that of the samples looked at"

------------------------------------------------------------------------------
(* chunks: a stream built from chunks                                         *)
(*   lens, parts (what each chunk alone gives), counts (after each chunk),    *)
(*   mem, mem2, count, version, out, out2                                     *)
JudgeChunks(ev) ==
  IF Has(ev, "panic") THEN "the stream fails"
  ELSE
  LET all == FoldLeft(LAMBDA a, p : a \o p, <<>>, ev.parts)
      n == Len(ev.parts)
  IN CASE Prop = "C09" ->
            IF ev.mem # all THEN "not the concatenation of the chunks"
            ELSE IF ev.mem2 # all THEN "decompressing twice"
            ELSE IF ev.out # all THEN "not the concatenation after the byte form"
            ELSE IF ev.out2 # all THEN "decompressing twice after the byte form"
            ELSE IF \E k \in 1..Len(ev.counts) : k <= 255 /\ ev.counts[k] # k THEN "frame count while building"
            ELSE IF n <= 255 /\ ev.count # n THEN "frame count"
            ELSE IF Len(ev.bytes) < 9 \/ (n <= 255 /\ ev.bytes[9] # n) THEN "frame count in the bytes"
            ELSE ""
       [] Prop = "C10" ->
            IF ev.bytes = PutStream(CurrentVersion,
                            [k \in 1..Len(ev.data) |-> [codec |-> ev.codecs[k], count |-> Len(ev.data[k]),
                                                        payload |-> EncPlain(ev.codecs[k], ev.data[k])]])
            THEN "" ELSE "bytes of the stream"
       [] OTHER -> ""

------------------------------------------------------------------------------
(* plan: data, sizes, kept, exec | panic;  planlen: n, sizes, inorder, execs  *)
JudgePlan(ev) ==
  IF Has(ev, "panic") THEN "planning fails"
  ELSE IF ev.kept # Clean(ev.data) THEN "kept samples"
  ELSE IF SumSeq(ev.sizes) # Len(ev.kept) THEN "samples covered"
  ELSE IF ~SizeOk(ev.sizes) THEN "sizes of the frames"
  ELSE IF [k \in 1..Len(ev.exec) |-> Len(ev.exec[k])] # ev.sizes THEN "slices"
  ELSE IF FoldLeft(LAMBDA a, p : a \o p, <<>>, ev.exec) # ev.kept THEN "content of the slices"
  ELSE ""
JudgePlanLen(ev) ==
  IF Has(ev, "panic") THEN "planning fails"
  ELSE IF SumSeq(ev.sizes) # ev.n THEN "samples covered"
  ELSE IF ~SizeOk(ev.sizes) THEN "sizes of the frames"
  ELSE IF ~ev.inorder \/ ev.execs # Len(ev.sizes) THEN "slices"
  ELSE ""

------------------------------------------------------------------------------
(* load: bytes given to the loader; version/count/out or refused              *)
(* cuts: every prefix of a stream: <<length, accepted>>                       *)
JudgeLoad(ev) ==
  LET st == GetStream(ev.bytes)
      refused == Has(ev, "panic")
  IN CASE Prop = "C11" ->
            IF st = Fail THEN (IF refused THEN "" ELSE "accepted although it must be refused")
            ELSE (IF refused THEN "refused although it is complete" ELSE "")
       [] Prop = "C10" ->
            IF refused THEN "refused although it is complete"
            ELSE IF st = Fail THEN "(specification) not a stream"
            ELSE IF ~StreamOk(st[1].frames, ev.out) THEN "not the series that the layout denotes"
            ELSE IF ev.version # st[1].version \/ ev.count # st[1].count THEN "header"
            ELSE ""
       [] OTHER -> ""
JudgeCuts(ev) ==
  IF \E k \in 1..Len(ev.cuts) : ev.cuts[k][1] < Len(ev.bytes) /\ ev.cuts[k][2] THEN "a torn stream is accepted"
  ELSE IF \E k \in 1..Len(ev.cuts) : ev.cuts[k][1] = Len(ev.bytes) /\ ~ev.cuts[k][2] THEN "a complete stream is refused"
  ELSE ""

\* cmd: the decompression command given these bytes: the files before and after, its status, whether it
\* printed samples
JudgeCmd(ev) ==
  LET st == GetStream(ev.bytes)
      stream == Len(ev.bytes) >= 4 /\ SubSeq(ev.bytes, 1, 4) = <<66, 82, 82, 79>>
  IN IF st # Fail THEN (IF ev.rc = 0 THEN "" ELSE "refused although it is complete")
     ELSE IF ev.before # ev.after THEN "a file is created or changed"
     ELSE IF ev.shown THEN "samples are shown"
     ELSE IF stream /\ ev.rc = 0 THEN "success is reported"
     ELSE ""

------------------------------------------------------------------------------
(* spectrum: integers up to 100 times 2^sh, compressed by the fft codec       *)
(*   how ("plain": without an error bound), sh, data, bytes | panic           *)
(* mean: strong is set when the mean is half of every sample at least         *)
Unscaled(x, sh) == IF IsZero(x) \/ Exp(x) <= sh \/ Exp(x) - sh > 2046 THEN x ELSE <<x[1], x[2], x[3], x[4] - 16 * sh>>
JudgeSpectrum(ev) ==
  IF Has(ev, "panic") THEN "the codec fails"
  ELSE LET got == GetFft(ev.bytes) IN
  IF got = Fail THEN "not frequencies"
  ELSE
  LET g == got[1]
      s == [k \in 1..Len(ev.data) |-> IntOf(Unscaled(ev.data[k], ev.sh))]
      x == Extended(s)
      half == Len(x) \div 2
      pos == [k \in 1..Len(g.freqs) |-> g.freqs[k].pos]
      tol == Unsure(x)
      t == Transform(x)
      \* the double v is the integer c in units of 2^-12
      part(v, c) == IsFinite(v) /\ LET u == ToInt(Shr(UnitsOf(v), 12)) IN AbsI((IF Neg(v) THEN 0 - u ELSE u) - c) <= tol
      right(f) == part(Unscaled(FromF32(f.re), ev.sh), t[f.pos + 1][1]) /\ part(Unscaled(FromF32(f.im), ev.sh), t[f.pos + 1][2])
      out == SelectSeq([k \in 1..(half + 1) |-> k - 1], LAMBDA f : f \notin ToSet(pos))
      stronger(a, b) == Cmp(Power(t[a + 1]), Power(t[b + 1])) >= 0
      most == FoldLeft(LAMBDA a, f : IF stronger(a, f) THEN a ELSE f, out[1], out)
      least == FoldLeft(LAMBDA a, f : IF stronger(a, f) THEN f ELSE a, pos[1], pos)
  IN IF ~NumEq(g.max, MaxOf(ev.data)) \/ ~NumEq(g.min, MinOf(ev.data)) THEN "limits"
     ELSE IF \A k \in 1..Len(s) : s[k] = s[1] THEN (IF pos = <<>> THEN "" ELSE "frequencies of a constant")
     ELSE IF \E k \in 1..Len(pos) : pos[k] > half \/ \E l \in 1..(k - 1) : pos[l] = pos[k] THEN "positions"
     ELSE IF \E k \in 1..Len(pos) : ~right(g.freqs[k]) THEN "a coefficient that is not the transform's"
     ELSE IF pos = <<>> THEN "no frequency"
     ELSE IF out # <<>> /\ ~AsStrong(t[least + 1], t[most + 1], tol) THEN "a stronger frequency is left out"
     ELSE IF Len(pos) < Budget(Len(s)) /\ out # <<>> /\ Cmp(Power(t[most + 1]), NatB(4 * tol * tol)) > 0 THEN "fewer frequencies than there are to keep"
     ELSE IF ev.how = "plain" /\ Len(pos) > Budget(Len(s)) THEN "more frequencies than asked for"
     ELSE ""

\* mean: the same for frames of any length, as far as the mean and the positions go
JudgeMean(ev) ==
  IF Has(ev, "panic") THEN "the codec fails"
  ELSE LET got == GetFft(ev.bytes) IN
  IF got = Fail THEN "not frequencies"
  ELSE
  LET g == got[1]
      n == Len(ev.data)
      s == [k \in 1..n |-> IntOf(ev.data[k])]
      nn == Padded(n)
      pre == (nn - n) \div 2
      sum == FoldLeft(LAMBDA a, v : a + v, 0, s) + pre * s[1] + (nn - n - pre) * s[n]
      tol == 2 + AbsSum(s) \div 65536
      at == {k \in 1..Len(g.freqs) : g.freqs[k].pos = 0}
      pos == {g.freqs[k].pos : k \in 1..Len(g.freqs)}
      mean(f) == LET v == FromF32(f.re) IN IsFinite(v) /\ LET u == ToInt(Shr(UnitsOf(v), 24)) IN AbsI((IF Neg(v) THEN 0 - u ELSE u) - sum) <= tol
  IN IF Cardinality(pos) # Len(g.freqs) THEN "positions"
     ELSE IF \E p \in pos : p > nn \div 2 THEN "positions"
     ELSE IF \E k \in at : ~mean(g.freqs[k]) \/ ~IsZero(FromF32(g.freqs[k].im)) THEN "a coefficient that is not the transform's"
     ELSE IF ev.strong /\ at = {} THEN "the mean is left out"
     ELSE ""

------------------------------------------------------------------------------
(* thrift: a codec under a maximum error (e percent), and what it makes of    *)
(* the frame with less: sparser samples (codecs that interpolate), or fewer   *)
(* of the frequencies it chose (fft)                                          *)
(*   codec, e, data, bytes, out, dense, tries : sequence of [bytes, out]      *)
SameButWidth(b, c) == LET x == GetInterpolated(b)
                          y == GetInterpolated(c)
                      IN /\ x # Fail /\ y # Fail
                         /\ x[1].id = y[1].id /\ x[1].step = y[1].step
                         /\ SeqNumEq(x[1].knots, y[1].knots)
                         /\ NumEq(x[1].min, y[1].min) /\ NumEq(x[1].max, y[1].max)
Meets(ev, out) == SurelyWithin(SumErr(ev.data, out), Len(ev.data), ev.e)
ThriftyKnots(ev) ==
  LET n == Len(ev.data)
      id == IF ev.codec = "idw" THEN IdIdw ELSE IdPolynomial
      g == GetInterpolated(ev.bytes)
      sparser(st) == {d \in Distances(n) : d > st}
      try(d) == {k \in 1..Len(ev.tries) : SameButWidth(ev.tries[k].bytes, EncKnots(id, ev.data, d))}
  IN IF g = Fail THEN "not knots"
     ELSE IF g[1].step \notin Distances(n) THEN "a distance that is not tried"
     ELSE IF ev.bytes # EncKnots(id, ev.data, g[1].step) THEN "knots that are not samples at that distance"
     ELSE IF \E d \in sparser(g[1].step) : try(d) = {} THEN "(driver) a distance is missing"
     ELSE IF \E d \in sparser(g[1].step) : \E k \in try(d) : Meets(ev, ev.tries[k].out) THEN "sparser samples meet the bound"
     ELSE IF ~Within(SumErr(ev.data, ev.out), n, ev.e) THEN "the bound is not met"
     ELSE ""
\* the error is looked at in thousandths
WithinMilli(sum, n, e) == /\ sum # Infinite
                          /\ Cmp(MulS(SumUnits(sum), 1000), Add(Shl(NatB(n * (10 * e + 1)), 24), MulS(Slack(n, e + 1), 10))) <= 0
ThriftyFreqs(ev) ==
  LET n == Len(ev.data)
      g == GetFft(ev.bytes)
      m == Len(g[1].freqs)
      all == Padded(n) \div 2 + 1
      tried == {Counts(n, r) : r \in 1..Rounds}
      fewer == {c \in tried : c < m}
      part(b) == LET h == GetFft(b) IN /\ h # Fail
                                       /\ ToSet(h[1].freqs) \subseteq ToSet(g[1].freqs)
                                       /\ Len(h[1].freqs) \in fewer
                                       /\ NumEq(h[1].min, g[1].min) /\ NumEq(h[1].max, g[1].max)
  IN IF g = Fail THEN "not frequencies"
     ELSE IF m > Counts(n, Rounds) THEN "more frequencies than ever tried"
     ELSE IF ev.dense /\ m # all /\ m \notin tried THEN "a number of frequencies that is not tried"
     ELSE IF \E k \in 1..Len(ev.tries) : ~part(ev.tries[k].bytes) THEN "(driver) not a part"
     ELSE IF \E k \in 1..Len(ev.tries) : Meets(ev, ev.tries[k].out) THEN "fewer frequencies meet the bound"
     ELSE IF m < all /\ m \in tried /\ m # Counts(n, Rounds) /\ ev.dense /\ ~WithinMilli(SumErr(ev.data, ev.out), n, ev.e) THEN "given up before the rounds run out"
     ELSE ""
JudgeThrift(ev) ==
  IF Has(ev, "panic") THEN "the codec fails"
  ELSE IF NumEq(MinOf(ev.data), MaxOf(ev.data)) THEN ""
  ELSE IF ev.codec = "fft" THEN ThriftyFreqs(ev) ELSE ThriftyKnots(ev)

Judge(ev) ==
  CASE ev.k = "mean" -> JudgeMean(ev)
    [] ev.k = "spectrum" -> JudgeSpectrum(ev)
    [] ev.k = "cmd" -> JudgeCmd(ev)
    [] ev.k = "pipe" -> JudgePipe(ev)
    [] ev.k = "codec" -> JudgeCodec(ev)
    [] ev.k = "auto" -> JudgeAuto(ev)
    [] ev.k = "level" -> JudgeLevel(ev)
    [] ev.k = "chunks" -> JudgeChunks(ev)
    [] ev.k = "plan" -> JudgePlan(ev)
    [] ev.k = "planlen" -> JudgePlanLen(ev)
    [] ev.k = "load" -> JudgeLoad(ev)
    [] ev.k = "cuts" -> JudgeCuts(ev)
    [] ev.k = "thrift" -> JudgeThrift(ev)

Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
