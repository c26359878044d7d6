----------------------------- MODULE MCTyping -------------------------------
(***************************************************************************)
(* Values put to types they do or do not fit: every small value, also      *)
(* damaged at one place, against every small type.  A value fits a type    *)
(* exactly when its encoding says the same value to a decoder of the type. *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mT, mV, mPhase
vars == << mT, mV, mPhase >>

Ts == TLCEval(Types(1) \o (IF Depth > 1 THEN SubSeq(Types(2), Len(Types(1)) + 1, Len(Types(2))) ELSE << ArrOf(Tup(<< tU, tB >>)), Tup(<< FArr(tF(3), 2), tT >>), FArr(ArrOf(tS), 2), Tup(<< Tup(<< tI >>) >>) >>))
      \o << tF(4), FArr(tU, 3) >>
Vs == TLCEval(Concat(MapSeq(Values, Ts)))

\* one step away from a value
RECURSIVE Odd(_), OddMember(_)
Odd(v) ==
    CASE v.k = "fbytes" -> << [v EXCEPT !.b = Append(@, 1)], [v EXCEPT !.b = << >>], [v EXCEPT !.b = << 5 >>], [v EXCEPT !.b = Zeros(33)] >>
      [] v.k = "int" -> << [v EXCEPT !.k = "uint"] >>
      [] v.k = "array" -> << [v EXCEPT !.k = "farray"], [v EXCEPT !.ts = Append(@, [k |-> "bool", v |-> TRUE])], [v EXCEPT !.k = "tuple"] >> \o OddMember(v)
      [] v.k = "farray" -> << [v EXCEPT !.ts = DropN(@, 1)], [v EXCEPT !.ts = Append(@, v.ts[1])], [v EXCEPT !.k = "array"], [v EXCEPT !.k = "tuple"] >> \o OddMember(v)
      [] v.k = "tuple" -> << [v EXCEPT !.ts = DropN(@, 1)], [v EXCEPT !.ts = Append(@, v.ts[1])], [v EXCEPT !.k = "array"], [v EXCEPT !.k = "farray"] >> \o OddMember(v)
      [] OTHER -> << >>
OddMember(v) == IF v.ts = << >> THEN << >>
                ELSE LET n == Len(v.ts) IN MapSeq(LAMBDA x : [v EXCEPT !.ts = [@ EXCEPT ![n] = x]], Odd(v.ts[n]))

Init == /\ mPhase = "value"
        /\ \E i \in 1..Len(Ts) : Mine(i) /\ mT = Ts[i]
        /\ \E j \in 1..Len(Vs) : mV = Vs[j]
Fray == /\ mPhase = "value" /\ TypeCheck(mV, mT)
        /\ \E i \in 1..Len(Odd(mV)) : mV' = Odd(mV)[i]
        /\ mPhase' = "odd" /\ UNCHANGED mT
LOCAL One == [k |-> "bool", v |-> TRUE]
CallWant(Ts1, vs) == {CallReply(Selector(Txt("f"), Ts1), Ts1, vs)}
Tell == /\ mPhase \in {"value", "odd"} /\ mPhase' = "told"
        /\ Vector("check", [types |-> << mT >>, toks |-> << mV >>], {Ok([all |-> TypeCheck(mV, mT), each |-> << TypeCheck(mV, mT) >>])})
        /\ Vector("call", [name |-> Txt("f"), types |-> << mT >>, outs |-> << tT >>, toks |-> << mV >>], CallWant(<< mT >>, << mV >>))
        /\ mPhase = "odd" =>
             /\ Vector("create", [types |-> << tT, mT >>, code |-> << 1, 2 >>, toks |-> << One, mV >>], {CreateReply(<< tT, mT >>, << 1, 2 >>, << One, mV >>)})
             /\ Vector("call", [name |-> Txt("f"), types |-> << mT >>, outs |-> << >>, toks |-> << mV, mV >>], CallWant(<< mT >>, << mV, mV >>))
             /\ Vector("call", [name |-> Txt("f"), types |-> << mT >>, outs |-> << >>, toks |-> << >>], CallWant(<< mT >>, << >>))
        /\ UNCHANGED << mT, mV >>
Next == Fray \/ Tell

\* a byte string that is too short for its bytesN is filled up
RECURSIVE Full(_, _)
Full(v, T) == CASE T.k = "fbytes" -> Len(v.b) = T.n
                [] T.k \in {"array", "farray"} -> \A i \in 1..Len(v.ts) : Full(v.ts[i], T.t)
                [] T.k = "tuple" -> \A i \in 1..Len(v.ts) : Full(v.ts[i], T.ts[i])
                [] OTHER -> TRUE
RECURSIVE Filled(_, _)
Filled(v, T) == CASE T.k = "fbytes" -> [v EXCEPT !.b = @ \o Zeros(T.n - Len(@))]
                  [] T.k \in {"array", "farray"} -> [v EXCEPT !.ts = MapSeq(LAMBDA x : Filled(x, T.t), @)]
                  [] T.k = "tuple" -> [v EXCEPT !.ts = Seqn(Len(@), LAMBDA i : Filled(v.ts[i], T.ts[i]))]
                  [] OTHER -> v
Says == Decode(<< mT >>, Encode(<< mV >>))
FitsIsReadable == TypeCheck(mV, mT) => Says = Ok(<< Filled(mV, mT) >>)
\* what is refused would have been read as something else
RefusedIsAnother == ~TypeCheck(mV, mT) => Says # Ok(<< mV >>)
\* nothing is produced for what does not fit, and never for another number of values
NoBytes == /\ ~TypeCheck(mV, mT) => CallReply(<< 1, 2, 3, 4 >>, << mT >>, << mV >>) = Err
           /\ CreateReply(<< mT >>, << >>, << mV, mV >>) = Err
           /\ CreateReply(<< mT >>, << >>, << >>) = Err
OneEach == TypesCheck(<< mV, mV >>, << mT, mT >>) = TypeCheck(mV, mT)
=============================================================================
