-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Vocabulary shared by all modules: forced sequence maps, replies, texts. *)
(*                                                                         *)
(* A reply is [s |-> "ok", v |-> value] or [s |-> "err"]; a panic, an      *)
(* abort and a timeout of the implementation are recorded as               *)
(* [s |-> "panic"], "abort" and "timeout" and are replies of no operation. *)
(* A text is a sequence of Unicode code points, a byte string a sequence   *)
(* of 0..255.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt

Ok(v) == [s |-> "ok", v |-> v]
Err == [s |-> "err"]
IsOk(r) == r.s = "ok"

\* TLC evaluates a function constructor lazily; these force it once
Seqn(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
MapSeq(F(_), s) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
Fold(F(_, _), z, s) == FoldLeft(F, z, s)
Ints(n) == [i \in 1..n |-> i]
Concat(ss) == Fold(LAMBDA a, b : a \o b, << >>, ss)
SumSeq(s) == Fold(LAMBDA a, b : a + b, 0, s)
Zeros(n) == [i \in 1..n |-> 0]
Min2(a, b) == IF a < b THEN a ELSE b
AllOk(rs) == \A i \in 1..Len(rs) : rs[i].s = "ok"
Vals(rs) == MapSeq(LAMBDA r : r.v, rs)
\* all replies ok: ok of their values; else err
Sequence(rs) == IF AllOk(rs) THEN Ok(Vals(rs)) ELSE Err

\* last index of x in s, 0 if there is none; first index likewise
LastIndex(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                   THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in (i + 1)..Len(s) : s[j] # x
                   ELSE 0
FirstIndex(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                    THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
                    ELSE 0
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
DropN(s, n) == SubSeq(s, n + 1, Len(s))
Join(ss, sep) == Fold(LAMBDA a, i : IF i = 1 THEN ss[1] ELSE a \o sep \o ss[i], << >>, Ints(Len(ss)))

(***************************************************************************)
(* Code points of the ASCII characters TLC strings in this specification   *)
(* are written with.                                                       *)
(***************************************************************************)
LOCAL Chars == << "!", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
  "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R",
  "S", "T", "U", "V", "W", "X", "Y", "Z" >>
LOCAL Lower == << "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
  "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z" >>
LOCAL CodeTable == TLCEval(
  [c \in {Chars[i] : i \in 1..Len(Chars)} |->
      LET i == CHOOSE i \in 1..Len(Chars) : Chars[i] = c IN IF i = 1 THEN 33 ELSE i + 33] @@
  [c \in {Lower[i] : i \in 1..26} |-> 96 + CHOOSE i \in 1..26 : Lower[i] = c] @@
  [c \in {" ", "[", "]", "_", "\""} |->
      CASE c = " " -> 32 [] c = "[" -> 91 [] c = "]" -> 93 [] c = "_" -> 95 [] OTHER -> 34])
Txt(s) == TLCEval([i \in 1..Len(s) |-> CodeTable[SubSeq(s, i, i)]])

LParen == 40
RParen == 41
Comma == 44
Minus == 45
LBrack == 91
RBrack == 93
Quote == 34
IsDigit(c) == c >= 48 /\ c <= 57

\* decimal text of a natural number
RECURSIVE DecText(_)
DecText(n) == IF n < 10 THEN << 48 + n >> ELSE DecText(n \div 10) \o << 48 + (n % 10) >>

\* lowercase hex text of bytes
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexText(b) == TLCEval([i \in 1..(2 * Len(b)) |->
    LET x == b[(i + 1) \div 2] IN IF i % 2 = 1 THEN HexDigit(x \div 16) ELSE HexDigit(x % 16)])
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
=============================================================================
