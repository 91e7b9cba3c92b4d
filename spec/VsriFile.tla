------------------------------ MODULE VsriFile ------------------------------
(* The file of a time index: text, in lines that each end with a line feed.   *)
(*    earliest timestamp                                                      *)
(*    latest timestamp                                                        *)
(*    step,first position,first timestamp,samples      (one line per run)     *)
(* The runs, one after another, are the samples. How samples are divided into *)
(* runs is up to the writer.                                                  *)
EXTENDS Vsri

LF == 10
CommaC == 44
MinusC == 45

\* writing
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>
Number(n) == IF n < 0 THEN <<MinusC>> \o DigitsOf(0 - n) ELSE DigitsOf(n)
RunLine(s) == Number(s[1]) \o <<CommaC>> \o Number(s[2]) \o <<CommaC>> \o Number(s[3]) \o <<CommaC>> \o Number(s[4]) \o <<LF>>
FileOf(mn, mx, segs) == FoldLeft(LAMBDA t, s : t \o RunLine(s), Number(mn) \o <<LF>> \o Number(mx) \o <<LF>>, segs)

\* reading: the lines, each a sequence of numbers
Start == [lines |-> <<>>, fields |-> <<>>, val |-> 0, digits |-> 0, neg |-> FALSE, bad |-> FALSE]
EndField(s) == [s EXCEPT !.fields = Append(s.fields, IF s.neg THEN 0 - s.val ELSE s.val), !.val = 0, !.digits = 0, !.neg = FALSE,
                         !.bad = s.bad \/ s.digits = 0]
EndLine(s) == LET e == EndField(s) IN [e EXCEPT !.lines = Append(e.lines, e.fields), !.fields = <<>>]
ReadChar(s, ch) ==
  IF s.bad THEN s
  ELSE IF ch = LF THEN EndLine(s)
  ELSE IF ch = CommaC THEN EndField(s)
  ELSE IF ch = MinusC /\ s.digits = 0 /\ ~s.neg THEN [s EXCEPT !.neg = TRUE]
  ELSE IF ch \in 48..57 /\ (s.val < 214748364 \/ (s.val = 214748364 /\ ch <= 55)) THEN [s EXCEPT !.val = 10 * s.val + ch - 48, !.digits = s.digits + 1]
  ELSE [s EXCEPT !.bad = TRUE]
BadFile == [ok |-> FALSE, mn |-> 0, mx |-> 0, segs |-> <<>>]
ReadFile(text) ==
  LET s == FoldLeft(ReadChar, Start, text)
      l == s.lines
  IN IF s.bad \/ s.fields # <<>> \/ s.digits > 0 \/ s.neg \/ Len(l) < 2 THEN BadFile
     ELSE IF Len(l[1]) # 1 \/ Len(l[2]) # 1 \/ (\E k \in 3..Len(l) : Len(l[k]) # 4) THEN BadFile
     ELSE [ok |-> TRUE, mn |-> l[1][1], mx |-> l[2][1], segs |-> SubSeq(l, 3, Len(l))]

\* the samples of the runs
Expand(segs) == FoldLeft(LAMBDA acc, s : acc \o [j \in 1..s[4] |-> s[3] + s[1] * (j - 1)], <<>>, segs)
RunsInOrder(segs) == FoldLeft(LAMBDA x, s : IF x >= 0 /\ s[2] = x /\ s[4] >= 1 THEN x + s[4] ELSE 0 - 1, 0, segs) >= 0
\* does a file stand for the history
Denotes(f, h) == /\ f.ok
                 /\ RunsInOrder(f.segs)
                 /\ Expand(f.segs) = h
                 /\ h # <<>> => f.mn = h[1] /\ f.mx = h[Len(h)]
=============================================================================
