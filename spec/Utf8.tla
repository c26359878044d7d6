-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8: encoding of texts, and the lossy decoding that replaces every    *)
(* maximal ill-formed subpart by U+FFFD (Unicode 3.9, "substitution of     *)
(* maximal subparts").                                                     *)
(***************************************************************************)
EXTENDS Base

Utf8Of(c) ==
    IF c < 128 THEN << c >>
    ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
    ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
    ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
Utf8Text(t) == Concat(MapSeq(Utf8Of, t))

\* the second byte a lead byte admits: an interval; << >> if it is no lead byte of a longer form
LOCAL Second(b) ==
    IF b >= 194 /\ b <= 223 THEN << 128, 191 >>
    ELSE IF b = 224 THEN << 160, 191 >>
    ELSE IF b = 237 THEN << 128, 159 >>
    ELSE IF b >= 225 /\ b <= 239 THEN << 128, 191 >>
    ELSE IF b = 240 THEN << 144, 191 >>
    ELSE IF b >= 241 /\ b <= 243 THEN << 128, 191 >>
    ELSE IF b = 244 THEN << 128, 143 >>
    ELSE << >>
LOCAL FormLen(b) == IF b < 128 THEN 1 ELSE IF b <= 223 THEN 2 ELSE IF b <= 239 THEN 3 ELSE 4
LOCAL Cont(b) == b >= 128 /\ b <= 191
LOCAL Replacement == << 239, 191, 189 >>

\* [n |-> bytes consumed at position i, good |-> well-formed]
LOCAL Step(b, i) ==
    LET x == b[i] IN
    IF x < 128 THEN [n |-> 1, good |-> TRUE]
    ELSE IF Second(x) = << >> THEN [n |-> 1, good |-> FALSE]
    ELSE IF i + 1 > Len(b) \/ b[i + 1] < Second(x)[1] \/ b[i + 1] > Second(x)[2]
         THEN [n |-> 1, good |-> FALSE]
    ELSE IF FormLen(x) = 2 THEN [n |-> 2, good |-> TRUE]
    ELSE IF i + 2 > Len(b) \/ ~Cont(b[i + 2]) THEN [n |-> 2, good |-> FALSE]
    ELSE IF FormLen(x) = 3 THEN [n |-> 3, good |-> TRUE]
    ELSE IF i + 3 > Len(b) \/ ~Cont(b[i + 3]) THEN [n |-> 3, good |-> FALSE]
    ELSE [n |-> 4, good |-> TRUE]

RECURSIVE LossyFrom(_, _, _)
LOCAL LossyFrom(b, i, acc) ==
    IF i > Len(b) THEN acc
    ELSE LET st == Step(b, i)
         IN LossyFrom(b, i + st.n, acc \o (IF st.good THEN SubSeq(b, i, i + st.n - 1) ELSE Replacement))

Lossy(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN b ELSE LossyFrom(b, 1, << >>)
WellFormed(b) == Lossy(b) = b
=============================================================================
