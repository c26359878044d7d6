------------------------------ MODULE MCCodec -------------------------------
(***************************************************************************)
(* Lists of values of every small type, grown value by value: what is      *)
(* encoded decodes again, whatever follows it, and the encoding is laid    *)
(* out as the contract ABI says.                                           *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mTypes, mVals, mTold
vars == << mTypes, mVals, mTold >>

First == TLCEval(Types(2))
Second == TLCEval(Types(IF Depth > 1 THEN 1 ELSE 0))

FirstVals == TLCEval(MapSeq(Values, First))
SecondVals == TLCEval(MapSeq(Values, Second))

Init == /\ mTold = FALSE
        /\ \E i \in 1..Len(First) : /\ Mine(i)
                                    /\ mTypes = << First[i] >>
                                    /\ \E j \in 1..Len(FirstVals[i]) : mVals = << FirstVals[i][j] >>
Grow == /\ ~mTold /\ Len(mTypes) < 2
        /\ \E i \in 1..Len(Second) : \E j \in 1..Len(SecondVals[i]) :
              \E front \in BOOLEAN :
                 /\ front => Depth > 1 \/ TypeDynamic(Second[i])
                 /\ mTypes' = IF front THEN << Second[i] >> \o mTypes ELSE Append(mTypes, Second[i])
                 /\ mVals' = IF front THEN << SecondVals[i][j] >> \o mVals ELSE Append(mVals, SecondVals[i][j])
        /\ UNCHANGED mTold
Tell == /\ ~mTold /\ mTold' = TRUE
        /\ Vector("encode", [toks |-> mVals], {Ok(Encode(mVals))})
        /\ LET a == [types |-> mTypes, toks |-> mVals, tail |-> << 7, 0, 255 >>] IN Vector("rt", a, Expect("rt", a))
        /\ UNCHANGED << mTypes, mVals >>
Next == Grow \/ Tell

WellTyped == TypesCheck(mVals, mTypes)
RoundTrip == Decode(mTypes, Encode(mVals)) = Ok(mVals)
Trailing == Decode(mTypes, Encode(mVals) \o << 1, 2, 3 >>) = Ok(mVals)
Whole == Len(Encode(mVals)) % 32 = 0
\* a shorter string never decodes to something else
Prefix == LET b == Encode(mVals) IN
          \A i \in 0..((Len(b) - 1) \div 32) :
             LET r == Decode(mTypes, SubSeq(b, 1, 32 * i + ((7 * i) % 32))) IN r = Err \/ r = Ok(mVals)
\* the kinds of head agree between the types and the values
SameHeads == \A i \in 1..Len(mTypes) : TypeDynamic(mTypes[i]) = TokenDynamic(mVals[i])
                \* an empty array of a static fixed array is the same thing for both
HeadFirst == LET hs == SumSeq(MapSeq(HeadSize, mTypes)) IN
             /\ Len(Encode(mVals)) >= hs
             /\ (\A i \in 1..Len(mTypes) : ~TypeDynamic(mTypes[i])) => Len(Encode(mVals)) = hs
\* the order of static values is the order of their words
InPlaceStatic == LET b == Encode(mVals) IN
    (Len(mVals) = 2 /\ ~TypeDynamic(mTypes[1])) => StartsWith(b, Enc(mVals[1]))
=============================================================================
