------------------------------ MODULE Universe ------------------------------
(***************************************************************************)
(* Small sets of types and values the models are exhaustive over, and the  *)
(* way models hand their behaviours to the implementation.                 *)
(***************************************************************************)
EXTENDS Abi, Json, IOUtils

Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Mine(i) == i % Shards = Shard
\* how large a model is: 1 (quick) or more
Depth == atoi(IOEnv.DEPTH)

\* a call with all the replies the specification allows, for replay
Vector(op, a, want) == PrintT("VECTOR " \o ToJson([op |-> op, args |-> a, want |-> want]))
\* a call whose reply is to be recorded and judged by AbiTrace
Input(op, a) == PrintT("INPUT " \o ToJson([op |-> op, args |-> a]))
Session(evs) == PrintT("SESSION " \o ToJson(evs))

tA == [k |-> "address"]
tB == [k |-> "bytes"]
tT == [k |-> "bool"]
tS == [k |-> "string"]
tU == [k |-> "uint", n |-> 256]
tI == [k |-> "int", n |-> 256]
tF(n) == [k |-> "fbytes", n |-> n]
ArrOf(T) == [k |-> "array", t |-> T]
FArr(T, n) == [k |-> "farray", t |-> T, n |-> n]
Tup(Ts) == [k |-> "tuple", ts |-> Ts]

SeqOfSet(S) == LET RECURSIVE F(_) F(X) == IF X = {} THEN << >> ELSE LET x == CHOOSE x \in X : TRUE IN << x >> \o F(X \ {x}) IN F(S)
\* all sequences over a sequence of choices, one choice per position
RECURSIVE Choices(_)
Choices(ss) == IF ss = << >> THEN << << >> >>
               ELSE LET rest == Choices(Tail(ss))
                    IN Concat(MapSeq(LAMBDA x : MapSeq(LAMBDA r : << x >> \o r, rest), ss[1]))

LOCAL Big == [i \in 1..32 |-> 255 - i]
\* representative values, as sequences; at most a handful per type
RECURSIVE Values(_)
Values(T) ==
    CASE T.k = "address" -> << [k |-> "address", w |-> [i \in 1..20 |-> 16 * i % 256]] >>
      [] T.k = "uint" -> << [k |-> "uint", w |-> Zeros(31) \o << 32 >>], [k |-> "uint", w |-> Big] >>
      [] T.k = "int" -> << [k |-> "int", w |-> [i \in 1..32 |-> 255]] >>
      [] T.k = "bool" -> << [k |-> "bool", v |-> TRUE], [k |-> "bool", v |-> FALSE] >>
      [] T.k = "fbytes" -> << [k |-> "fbytes", b |-> [i \in 1..T.n |-> i]] >>
      [] T.k = "bytes" -> << [k |-> "bytes", b |-> << >>], [k |-> "bytes", b |-> << 7 >>], [k |-> "bytes", b |-> [i \in 1..33 |-> i]] >>
      [] T.k = "string" -> << [k |-> "string", b |-> << >>], [k |-> "string", b |-> [i \in 1..32 |-> 96]] >>
      [] T.k = "array" ->
            LET vs == Values(T.t)
            IN << [k |-> "array", ts |-> << >>], [k |-> "array", ts |-> << vs[1] >>],
                  [k |-> "array", ts |-> << vs[Len(vs)], vs[1] >>] >>
      [] T.k = "farray" ->
            LET vs == Values(T.t)
            IN << [k |-> "farray", ts |-> [i \in 1..T.n |-> vs[1 + (i % Len(vs))]]] >>
      [] T.k = "tuple" ->
            LET vss == MapSeq(Values, T.ts)
            IN << [k |-> "tuple", ts |-> MapSeq(LAMBDA vs : vs[1], vss)],
                  [k |-> "tuple", ts |-> MapSeq(LAMBDA vs : vs[Len(vs)], vss)] >>

Leaves == << tT, tU, tF(3), tB, tS, tA, tI >>
\* one constructor around each of a sequence of types
Around(Ts) == MapSeq(ArrOf, Ts) \o MapSeq(LAMBDA T : FArr(T, 2), Ts) \o MapSeq(LAMBDA T : FArr(T, 1), Ts)
              \o MapSeq(LAMBDA T : Tup(<< T >>), Ts)
              \o MapSeq(LAMBDA T : Tup(<< tU, T >>), Ts) \o MapSeq(LAMBDA T : Tup(<< T, tB >>), Ts)
\* every type of at most d constructors
RECURSIVE Types(_)
Types(d) == IF d = 0 THEN Leaves ELSE Types(d - 1) \o Around(IF d = 1 THEN Leaves ELSE SubSeq(Types(d - 1), Len(Types(d - 2)) + 1, Len(Types(d - 1))))
=============================================================================
