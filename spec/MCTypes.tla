------------------------------- MODULE MCTypes ------------------------------
(***************************************************************************)
(* Texts of types, grown piece by piece from every piece a type text is    *)
(* made of, next to a machine that reads them from left to right with a    *)
(* stack: a second, independent account of reading.                        *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mText,   \* the text so far
          mDone,   \* number of pieces
          mStack,  \* open tuples: the members so far, outermost first
          mCur,    \* << >> or << the type just read >>
          mMode,   \* "start": a type or an end is due; "name": a name that may get a size;
                   \* "sized", "type": a complete type; "size": between brackets; "dead"
          mLax     \* something outside Solidity's grammar was met
vars == << mText, mDone, mStack, mCur, mMode, mLax >>

Names == << Txt("bool"), Txt("uint"), Txt("bytes"), Txt("string"), Txt("int"), Txt("address"), Txt("tuple") >>
Marks == << << LParen >>, << RParen >>, << Comma >>, << LBrack >>, << RBrack >> >>
Sizes == << Txt("8"), Txt("0"), Txt("3") >>
Junk == << Txt("x"), Txt(" "), Txt("-") >>
Pieces == IF Depth > 1 THEN Names \o Marks \o Sizes \o Junk
          ELSE << Names[1], Names[2], Names[3], Names[7] >> \o Marks \o Sizes \o << Txt("x"), Txt(" ") >>
MaxPieces == IF Depth > 1 THEN 5 ELSE 4

Init == /\ mText = << >> /\ mDone = 0 /\ mStack = << >> /\ mCur = << >> /\ mMode = "start" /\ mLax = FALSE

OfName(n) == CASE n = Txt("bool") -> tT [] n = Txt("uint") -> tU [] n = Txt("bytes") -> tB [] n = Txt("string") -> tS
              [] n = Txt("int") -> tI [] n = Txt("address") -> tA [] OTHER -> Tup(<< >>)
\* what a size makes of a name
Widths(T, z) == CASE T.k \in {"uint", "int"} -> [T EXCEPT !.n = z]
                  [] T.k = "bytes" -> tF(z)
                  [] OTHER -> [k |-> "none"]
SizeFits(T) == CASE T.k \in {"uint", "int"} -> T.n % 8 = 0 /\ T.n > 0 /\ T.n <= 256
                 [] OTHER -> T.n > 0 /\ T.n <= 32

Die == mMode' = "dead" /\ mStack' = << >> /\ mCur' = << >> /\ mLax' = FALSE
Complete == mMode \in {"name", "sized", "type"}
Top == mStack[Len(mStack)]
Close(ms) ==  \* the innermost tuple is complete
    LET ps == SubSeq(mStack, 1, Len(mStack) - 1) IN
    mStack' = ps /\ mCur' = << Tup(ms) >> /\ mMode' = "type"

\* members of an open tuple: [ms, gaps]: gaps counts empty members
Consume(p) ==
    CASE mMode = "dead" -> Die
      [] \E i \in 1..Len(Names) : Names[i] = p ->
            IF mMode # "start" THEN Die
            ELSE mCur' = << OfName(p) >> /\ mMode' = (IF OfName(p).k \in {"uint", "int", "bytes"} THEN "name" ELSE "type") /\ UNCHANGED << mStack, mLax >>
      [] \E i \in 1..Len(Sizes) : Sizes[i] = p ->
            LET d == p[1] - 48 IN
            IF mMode = "name"
            THEN LET T == Widths(mCur[1], d) IN
                 mCur' = << T >> /\ mMode' = "sized" /\ UNCHANGED << mStack, mLax >>
            ELSE IF mMode = "sized"
            THEN LET z == 10 * mCur[1].n + d IN     \* a leading zero is lax
                 mCur' = << [mCur[1] EXCEPT !.n = z] >> /\ mMode' = "sized" /\ mLax' = (mLax \/ mCur[1].n = 0) /\ UNCHANGED mStack
            ELSE IF mMode = "open"
            THEN mCur' = << FArr(mCur[1], d) >> /\ mMode' = "size" /\ UNCHANGED << mStack, mLax >>
            ELSE IF mMode = "size"
            THEN mCur' = << [mCur[1] EXCEPT !.n = 10 * mCur[1].n + d] >> /\ mMode' = "size" /\ mLax' = (mLax \/ mCur[1].n = 0) /\ UNCHANGED mStack
            ELSE Die
      [] p = << LBrack >> ->
            IF ~Complete THEN Die
            ELSE mMode' = "open" /\ mLax' = (mLax \/ (mMode = "sized" /\ ~SizeFits(mCur[1]))) /\ UNCHANGED << mStack, mCur >>
      [] p = << RBrack >> ->
            IF mMode = "open" THEN mMode' = "type" /\ mCur' = << ArrOf(mCur[1]) >> /\ UNCHANGED << mStack, mLax >>
            ELSE IF mMode = "size" THEN mMode' = "type" /\ mLax' = (mLax \/ mCur[1].n = 0) /\ UNCHANGED << mStack, mCur >>
            ELSE Die
      [] p = << LParen >> ->
            IF mMode # "start" THEN Die
            ELSE mStack' = Append(mStack, [ms |-> << >>, gaps |-> 0, commas |-> 0]) /\ mCur' = << >> /\ mMode' = "start" /\ UNCHANGED mLax
      [] p = << Comma >> ->
            IF mStack = << >> \/ ~(Complete \/ mMode = "start") THEN Die
            ELSE /\ mStack' = [mStack EXCEPT ![Len(mStack)] = [ms |-> Top.ms \o mCur, gaps |-> Top.gaps + (IF mCur = << >> THEN 1 ELSE 0), commas |-> Top.commas + 1]]
                 /\ mLax' = (mLax \/ (mMode = "sized" /\ ~SizeFits(mCur[1])))
                 /\ mCur' = << >> /\ mMode' = "start"
      [] p = << RParen >> ->
            IF mStack = << >> \/ ~(Complete \/ mMode = "start") THEN Die
            ELSE /\ Close(Top.ms \o mCur)
                 /\ mLax' = (mLax \/ (mMode = "sized" /\ ~SizeFits(mCur[1]))
                                  \/ (Top.commas > 0 /\ Top.gaps + (IF mCur = << >> THEN 1 ELSE 0) > 0))
      [] OTHER -> Die

Grow == /\ mDone >= 0 /\ mDone < MaxPieces
        /\ \E i \in 1..Len(Pieces) :
              /\ mDone = 1 => Mine(i)
              /\ mText' = mText \o Pieces[i]
              /\ Consume(Pieces[i])
        /\ mDone' = mDone + 1
Tell == /\ mDone >= 0
        /\ Vector("read", [text |-> mText, via |-> "reader"], ReadTypeReplies(mText))
        /\ mDone' = -1 /\ mText' = << >> /\ mStack' = << >> /\ mCur' = << >> /\ mMode' = "start" /\ mLax' = FALSE
Next == Grow \/ Tell

\* what the machine has read
Verdict == IF Complete /\ mStack = << >>
           THEN [s |-> "ok", v |-> mCur[1], lax |-> mLax \/ (mMode = "sized" /\ ~SizeFits(mCur[1]))]
           ELSE [s |-> "err", lax |-> FALSE]
SameVerdict == mDone >= 0 => ReadType(mText) = Verdict
\* a read type is written so that it reads again, and canonically
Inverse == LET r == ReadType(mText) IN
           r.s = "ok" => /\ LET q == ReadType(WriteType(r.v)) IN q.s = "ok" /\ q.v = r.v
                         /\ WriteType(ReadType(WriteType(r.v)).v) = WriteType(r.v)
\* texts that are written are accepted without reservation
Strict == LET r == ReadType(mText) IN (r.s = "ok" /\ ~r.lax) => ~ReadType(WriteType(r.v)).lax
=============================================================================
