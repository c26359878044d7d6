------------------------------ MODULE RunBytes ------------------------------
(***************************************************************************)
(* Byte strings as maximal runs << << count, byte >>, ... >>, so that      *)
(* payloads of tens of megabytes stay small.                               *)
(***************************************************************************)
EXTENDS Base
LOCAL Push(a, r) ==
    IF r[1] = 0 THEN a
    ELSE IF a # << >> /\ a[Len(a)][2] = r[2]
         THEN [a EXCEPT ![Len(a)] = << a[Len(a)][1] + r[1], r[2] >>]
         ELSE Append(a, r)
RLit(s) == Fold(LAMBDA a, x : Push(a, << 1, x >>), << >>, s)
RCat(a, b) == IF b = << >> THEN a ELSE IF a = << >> THEN b ELSE Push(a, b[1]) \o Tail(b)
RLen(a) == Fold(LAMBDA n, r : n + r[1], 0, a)
RSub(d, o, n) ==
    \* keep of every run the part inside [o, o + n)
    LET st == Fold(LAMBDA acc, r :
                LET lo == IF acc.at > o THEN acc.at ELSE o
                    e == acc.at + r[1]
                    hi == IF e < o + n THEN e ELSE o + n
                IN [at |-> e, out |-> IF lo < hi THEN Push(acc.out, << hi - lo, r[2] >>) ELSE acc.out],
              [at |-> 0, out |-> << >>], d)
    IN st.out
RFlat(a) == Concat(MapSeq(LAMBDA r : [i \in 1..r[1] |-> r[2]], a))
LOCAL RLossy(a) == a   \* huge strings are ASCII
INSTANCE Codec WITH Lit <- RLit, Cat <- RCat, BLen <- RLen, Sub <- RSub, Flat <- RFlat, LossyStr <- RLossy
=============================================================================
