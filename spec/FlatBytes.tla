----------------------------- MODULE FlatBytes ------------------------------
(* Byte strings as plain sequences: the codec used everywhere but for huge payloads. *)
EXTENDS Base
LOCAL U == INSTANCE Utf8
LOCAL FLit(s) == s
LOCAL FCat(a, b) == a \o b
LOCAL FLen(a) == Len(a)
LOCAL FSub(d, o, n) == SubSeq(d, o + 1, o + n)
LOCAL FFlat(a) == a
LOCAL FLossy(a) == U!Lossy(a)
INSTANCE Codec WITH Lit <- FLit, Cat <- FCat, BLen <- FLen, Sub <- FSub, Flat <- FFlat, LossyStr <- FLossy
=============================================================================
