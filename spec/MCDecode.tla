------------------------------ MODULE MCDecode ------------------------------
(***************************************************************************)
(* Decoding one read at a time.  The data grows word by word to any string *)
(* of words from a small set (also cut inside a word); then a machine with *)
(* a stack of tasks reads it.  The machine is a second, independent        *)
(* account of decoding: it never reads outside the data, does no more      *)
(* steps and holds no more tasks than the data warrants, and ends with     *)
(* what Decode says.                                                       *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mTypes,   \* the types to decode
          mData,    \* the data
          mPhase,   \* "grow", "run", "ok", "err"
          mTasks,   \* stack of tasks, top last
          mVals,    \* stack of values
          mSteps,   \* tasks done
          mReach    \* end of the furthest read
vars == << mTypes, mData, mPhase, mTasks, mVals, mSteps, mReach >>

TypeLists ==
    << << tT >>, << tB >>, << ArrOf(tT) >>, << FArr(tB, 2) >>, << Tup(<< tT, tB >>) >>, << tB, tS >>, << tU, tB >>, << ArrOf(tB) >>,
       << ArrOf(ArrOf(tU)) >>, << tF(3) >>, << ArrOf(tF(3)) >>, << FArr(tU, 2) >>, << Tup(<< tU, tT >>) >>, << ArrOf(Tup(<< tB >>)) >>,
       << FArr(ArrOf(tT), 1) >>, << ArrOf(FArr(tT, 2)) >>, << Tup(<< ArrOf(tU) >>) >>, << tA, tS >>, << Tup(<< Tup(<< tB >>) >>) >>, << tS >>,
       << FArr(tS, 1), tT >>, << ArrOf(Tup(<< tU, tU >>)) >>, << Tup(<< tB, tB >>) >>, << FArr(FArr(tB, 1), 2) >>, << ArrOf(tS), tT >>, << >>,
       << FArr(Tup(<< tU, tT >>), 2) >>, << tT, ArrOf(tU) >>, << FArr(Tup(<< tB >>), 1) >>, << Tup(<< tF(3), tF(3) >>) >>,
       << ArrOf(ArrOf(tB)) >>, << ArrOf(FArr(tB, 1)) >> >>
Small(n) == Zeros(31) \o << n >>
Words == << Small(0), Small(1), Small(2), Small(32), Small(64), Small(96), << 1 >> \o Zeros(31), Zeros(28) \o << 255, 255, 255, 224 >> >>
         \o (IF Depth > 1 THEN << Small(31), Small(33), Zeros(27) \o << 1, 0, 0, 0, 32 >>, [i \in 1..32 |-> 255] >> ELSE << >>)
MaxWords == IF Depth > 1 THEN 4 ELSE 3

Init == /\ mPhase = "grow" /\ mData = << >> /\ mTasks = << >> /\ mVals = << >> /\ mSteps = 0 /\ mReach = 0
        /\ \E i \in 1..Len(TypeLists) : Mine(i) /\ mTypes = TypeLists[i]

Grow == /\ mPhase = "grow" /\ Len(mData) < 32 * MaxWords
        /\ \E i \in 1..Len(Words) : mData' = mData \o Words[i]
        /\ UNCHANGED << mTypes, mPhase, mTasks, mVals, mSteps, mReach >>

Push(ts) == [i \in 1..Len(ts) |-> ts[Len(ts) + 1 - i]]   \* first task on top
Read(T, base, p) == [do |-> "read", T |-> T, base |-> base, p |-> p]
\* the tasks for members with heads in sequence from p
Heads(Ts, base, p) ==
    LET at == Fold(LAMBDA a, T : Append(a, a[Len(a)] + HeadSize(T)), << p >>, Ts)
    IN Push(Seqn(Len(Ts), LAMBDA i : Read(Ts[i], base, at[i])))
Make(k, n) == [do |-> "make", k |-> k, n |-> n]

Start == /\ mPhase = "grow"
         /\ \E cut \in {0, 1, 31} :
              /\ cut = 0 \/ Len(mData) > 0
              /\ mData' = SubSeq(mData, 1, Len(mData) - cut)
              /\ IF mData' = << >> /\ mTypes # << >>
                 THEN mPhase' = "err" /\ mTasks' = << >>
                 ELSE mPhase' = "run" /\ mTasks' = Heads(mTypes, 0, 0)
         /\ UNCHANGED << mTypes, mVals, mSteps, mReach >>

In(p, n) == p + n <= Len(mData)
WordAt(p) == SubSeq(mData, p + 1, p + 32)
Below(w, n) == /\ \A i \in 1..28 : w[i] = 0
               /\ w[29] = 0 /\ w[30] = 0          \* all data of this model is short
               /\ w[31] * 256 + w[32] <= n
Num(w) == w[31] * 256 + w[32]
Repeat(T, n) == [i \in 1..n |-> T]

Rest == SubSeq(mTasks, 1, Len(mTasks) - 1)
Top == mTasks[Len(mTasks)]
Fail == mPhase' = "err" /\ mTasks' = << >> /\ mVals' = << >> /\ UNCHANGED mReach
Reads(p, n) == mReach' = IF p + n > mReach THEN p + n ELSE mReach
Goto(ts) == mTasks' = Rest \o ts /\ UNCHANGED << mPhase, mVals >>
Yield(v) == mVals' = Append(mVals, v) /\ mTasks' = Rest /\ UNCHANGED mPhase

\* the head of a static value, or the offset of a dynamic one
DoRead ==
    LET t == Top
        T == t.T
    IN IF TypeDynamic(T)
       THEN IF In(t.p, 32) /\ Below(WordAt(t.p), Len(mData) - t.base)
            THEN LET a == t.base + Num(WordAt(t.p))
                 IN /\ Reads(t.p, 32)
                    /\ CASE T.k = "farray" -> Goto(<< Make("farray", T.n) >> \o Heads(Repeat(T.t, T.n), a, a))
                         [] T.k = "tuple" -> Goto(<< Make("tuple", Len(T.ts)) >> \o Heads(T.ts, a, a))
                         [] OTHER -> Goto(<< [do |-> "count", T |-> T, p |-> a] >>)
            ELSE Fail
       ELSE IF T.k = "farray" THEN Goto(<< Make("farray", T.n) >> \o Heads(Repeat(T.t, T.n), t.base, t.p)) /\ UNCHANGED mReach
       ELSE IF T.k = "tuple" THEN Goto(<< Make("tuple", Len(T.ts)) >> \o Heads(T.ts, t.base, t.p)) /\ UNCHANGED mReach
       ELSE IF T.k = "fbytes"
            THEN IF In(t.p, T.n) THEN Yield([k |-> "fbytes", b |-> SubSeq(mData, t.p + 1, t.p + T.n)]) /\ Reads(t.p, T.n) ELSE Fail
       ELSE IF ~In(t.p, 32) THEN Fail
       ELSE LET w == WordAt(t.p) IN
            CASE T.k = "address" -> Yield([k |-> "address", w |-> SubSeq(w, 13, 32)]) /\ Reads(t.p, 32)
              [] T.k = "bool" -> IF Below(w, 1) THEN Yield([k |-> "bool", v |-> w[32] = 1]) /\ Reads(t.p, 32) ELSE Fail
              [] OTHER -> Yield([k |-> T.k, w |-> w]) /\ Reads(t.p, 32)

\* a length or an element count, and what follows it
DoCount ==
    LET t == Top
        T == t.T
        left == Len(mData) - t.p - 32
    IN IF ~In(t.p, 32) \/ ~Below(WordAt(t.p), IF T.k = "array" THEN (left + 31) \div 32 ELSE left) THEN Fail
       ELSE LET n == Num(WordAt(t.p)) IN
            IF T.k = "array"
            THEN Goto(<< Make("array", n) >> \o Heads(Repeat(T.t, n), t.p + 32, t.p + 32)) /\ Reads(t.p, 32)
            ELSE Yield([k |-> T.k, b |-> IF T.k = "string" THEN Lossy(SubSeq(mData, t.p + 33, t.p + 32 + n))
                                         ELSE SubSeq(mData, t.p + 33, t.p + 32 + n)]) /\ Reads(t.p, 32 + n)

DoMake ==
    LET n == Top.n
        m == Len(mVals) - n
    IN /\ mVals' = Append(SubSeq(mVals, 1, m), [k |-> Top.k, ts |-> SubSeq(mVals, m + 1, m + n)])
       /\ mTasks' = Rest /\ UNCHANGED << mPhase, mReach >>

Step == /\ mPhase = "run" /\ mTasks # << >>
        /\ CASE Top.do = "read" -> DoRead [] Top.do = "count" -> DoCount [] OTHER -> DoMake
        /\ mSteps' = mSteps + 1
        /\ UNCHANGED << mTypes, mData >>
Finish == /\ mPhase = "run" /\ mTasks = << >>
          /\ mPhase' = "ok"
          /\ UNCHANGED << mTypes, mData, mTasks, mVals, mSteps, mReach >>
\* every decoded string is also put to the implementation
Report == /\ mPhase \in {"ok", "err"}
          /\ Vector("decode", [types |-> mTypes, data |-> mData, via |-> << "plain", "fn_in", "fn_out" >>[1 + ((Len(mData) \div 32) % 3)]], DecodeReplies(mTypes, mData))
          /\ mPhase' = "told" /\ mData' = << >> /\ mTasks' = << >> /\ mVals' = << >> /\ mSteps' = 0 /\ mReach' = 0 /\ UNCHANGED mTypes

Next == Grow \/ Start \/ Step \/ Finish \/ Report

ReadsInside == mReach <= Len(mData)
\* work and memory: at most three tasks for each value the data holds or claims within its length
Cheap == mPhase # "grow" /\ mPhase # "told" => mSteps <= 3 * Looks(mTypes, mData) + 1
Narrow == mPhase = "run" => Len(mTasks) + Len(mVals) <= Looks(mTypes, mData) + Len(mTypes) + 1 + Len(mTasks) \div 2
AgreesOk == mPhase = "ok" => Decode(mTypes, mData) = Ok(mVals)
AgreesErr == mPhase = "err" => Decode(mTypes, mData) = Err
\* what is decoded has the shape of its types
Shaped == mPhase = "ok" => TypesCheck(mVals, mTypes)
\* bytes after the furthest one read do not matter
Local == mPhase = "ok" => \/ mReach = 0
                          \/ Decode(mTypes, SubSeq(mData, 1, mReach) \o << 9, 9, 9 >>) = Ok(mVals)
=============================================================================
