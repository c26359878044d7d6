----------------------------- MODULE MCLiteral ------------------------------
(***************************************************************************)
(* Literal texts, grown piece by piece, next to a machine that reads       *)
(* bracketed lists from left to right with a stack of open lists: a second *)
(* account of how texts are taken apart.  Every text is read as a value of *)
(* every type of a small set, in both modes.                               *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mText, mDone,
          mOpen,   \* stack of open lists (sequences of trees)
          mCur,    \* the item in progress: [r |-> raw text] or [l |-> items, closed]
          mQuote,  \* inside quotes
          mDead    \* no list reading is possible any more
vars == << mText, mDone, mOpen, mCur, mQuote, mDead >>

Pieces == << << LBrack >>, << RBrack >>, << Comma >>, << Quote >>, Txt("1"), Txt("0"), << LParen >>, << RParen >>, Txt("true"), Txt("-"), Txt("f") >>
          \o (IF Depth > 1 THEN << Txt("false"), Txt(" "), << 233 >>, Txt("9"), Txt("+") >> ELSE << >>)
MaxPieces == IF Depth > 1 THEN 5 ELSE 4

Raw(t) == [k |-> "raw", t |-> t]
Init == mText = << >> /\ mDone = 0 /\ mOpen = << >> /\ mCur = Raw(<< >>) /\ mQuote = FALSE /\ mDead = FALSE

Die == mDead' = TRUE /\ mOpen' = << >> /\ mCur' = Raw(<< >>) /\ mQuote' = FALSE
Add(p) == IF mCur.k = "raw" THEN mCur' = Raw(mCur.t \o p) /\ UNCHANGED << mOpen, mDead >> ELSE Die
Consume(p) ==
    IF mDead THEN Die
    ELSE IF p = << Quote >> THEN (IF mCur.k = "raw" THEN mCur' = Raw(mCur.t \o p) /\ mQuote' = ~mQuote /\ UNCHANGED << mOpen, mDead >> ELSE Die)
    ELSE IF mQuote THEN Add(p) /\ UNCHANGED mQuote
    ELSE IF p = << LBrack >> THEN
         IF mCur = Raw(<< >>) THEN mOpen' = Append(mOpen, << >>) /\ UNCHANGED << mCur, mQuote, mDead >> ELSE Die
    ELSE IF p = << Comma >> /\ mOpen # << >> THEN
         mOpen' = [mOpen EXCEPT ![Len(mOpen)] = Append(@, mCur)] /\ mCur' = Raw(<< >>) /\ UNCHANGED << mQuote, mDead >>
    ELSE IF p = << RBrack >> THEN
         IF mOpen = << >> THEN Die
         ELSE LET items == mOpen[Len(mOpen)]
                  all == IF items = << >> /\ mCur = Raw(<< >>) THEN << >> ELSE Append(items, mCur)
              IN mCur' = [k |-> "list", l |-> all] /\ mOpen' = SubSeq(mOpen, 1, Len(mOpen) - 1) /\ UNCHANGED << mQuote, mDead >>
    ELSE Add(p) /\ UNCHANGED mQuote

Grow == /\ mDone >= 0 /\ mDone < MaxPieces
        /\ \E i \in 1..Len(Pieces) :
              /\ mDone = 1 => Mine(i)
              /\ mText' = mText \o Pieces[i]
              /\ Consume(Pieces[i])
        /\ mDone' = mDone + 1

TypesRead == << tT, ArrOf(tT), FArr(tT, 2), ArrOf(ArrOf(tT)), FArr(ArrOf(tT), 1), tB, tF(1), ArrOf(tF(1)), tU, tI, [k |-> "uint", n |-> 8], ArrOf(tU), tS, ArrOf(tS), FArr(tS, 2),
                Tup(<< tT, tT >>), Tup(<< tT >>), Tup(<< tS, tU >>), Tup(<< Tup(<< tT >>) >>), tA, Tup(<< >>), ArrOf(Tup(<< >>)) >>
Cases == TLCEval(Concat(MapSeq(LAMBDA T : << [mode |-> "strict", type |-> T], [mode |-> "lenient", type |-> T] >>, TypesRead)))
Tell == /\ mDone >= 0
        /\ LET rs == MapSeq(LAMBDA c : Tokenize(c.mode, c.type, mText), Cases)
           IN Vector("tokall", [text |-> mText, cases |-> Cases], {Ok(rs)})
        /\ mDone' = -1 /\ mText' = << >> /\ mOpen' = << >> /\ mCur' = Raw(<< >>) /\ mQuote' = FALSE /\ mDead' = FALSE
Next == Grow \/ Tell

\* the machine's tree as a value of a type of lists of bools
RECURSIVE Shape(_, _)
Shape(x, T) ==
    IF T.k = "bool"
    THEN IF x.k # "raw" THEN Err
         ELSE IF x.t \in {Txt("true"), Txt("1")} THEN Ok([k |-> "bool", v |-> TRUE])
         ELSE IF x.t \in {Txt("false"), Txt("0")} THEN Ok([k |-> "bool", v |-> FALSE])
         ELSE Err
    ELSE IF x.k # "list" THEN Err
    ELSE LET rs == Sequence(MapSeq(LAMBDA y : Shape(y, T.t), x.l)) IN
         IF rs.s # "ok" \/ (T.k = "farray" /\ Len(rs.v) # T.n) THEN Err
         ELSE Ok([k |-> T.k, ts |-> rs.v])
MachineReads(T) == IF mDead \/ mOpen # << >> \/ mQuote THEN Err ELSE Shape(mCur, T)
SameReading == mDone >= 0 => \A i \in 1..5 : Tokenize("strict", TypesRead[i], mText) = MachineReads(TypesRead[i])

StrictIsLenient == \A T \in {TypesRead[i] : i \in 1..Len(TypesRead)} :
    LET r == Tokenize("strict", T, mText) IN r.s = "ok" => Tokenize("lenient", T, mText) = r
\* what is read has its type, with all its bytes
WellTyped == \A i \in 1..Len(Cases) :
    LET r == Tokenize(Cases[i].mode, Cases[i].type, mText) IN
    r.s = "ok" => TypeCheck(r.v, Cases[i].type) /\ (Cases[i].type.k = "fbytes" => Len(r.v.b) = Cases[i].type.n)
\* rendering a value without strings, numbers and empty byte strings gives a text that reads as the value
RECURSIVE Readable(_)
Readable(v) == CASE v.k \in {"bool", "address"} -> TRUE
              [] v.k \in {"bytes", "fbytes"} -> v.b # << >>
              [] v.k \in {"array", "farray"} -> \A i \in 1..Len(v.ts) : Readable(v.ts[i])
              [] OTHER -> FALSE
Inverse == \A i \in 1..Len(Cases) :
    LET r == Tokenize(Cases[i].mode, Cases[i].type, mText) IN
    (r.s = "ok" /\ Readable(r.v)) => Tokenize("strict", Cases[i].type, Render(r.v)) = r
=============================================================================
