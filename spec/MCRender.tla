----------------------------- MODULE MCRender -------------------------------
(***************************************************************************)
(* Two values of one type, both rendered.                                  *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mT, mA, mB, mPhase
vars == << mT, mA, mB, mPhase >>

\* values of the leaves that are easily confused when they are written down
Leaf(T) ==
    CASE T.k \in {"uint", "int"} -> MapSeq(LAMBDA w : [k |-> T.k, w |-> w],
            << Zeros(32), Zeros(31) \o << 1 >>, Zeros(31) \o << 16 >>, Zeros(30) \o << 1, 0 >>, << 1 >> \o Zeros(31), << 16 >> \o Zeros(31), [i \in 1..32 |-> 255] >>)
      [] T.k = "bool" -> << [k |-> "bool", v |-> TRUE], [k |-> "bool", v |-> FALSE] >>
      [] T.k = "address" -> MapSeq(LAMBDA w : [k |-> "address", w |-> w], << Zeros(20), Zeros(19) \o << 1 >>, << 1 >> \o Zeros(19), [i \in 1..20 |-> 171] >>)
      [] T.k = "bytes" -> MapSeq(LAMBDA b : [k |-> "bytes", b |-> b], << << >>, << 0 >>, << 0, 0 >>, << 16 >>, << 1, 0 >>, << 171, 205 >> >>)
      [] T.k = "fbytes" -> MapSeq(LAMBDA b : [k |-> "fbytes", b |-> b], << Zeros(3), << 1, 0, 0 >>, << 0, 0, 1 >>, << 16, 171, 205 >> >>)
      [] OTHER -> MapSeq(LAMBDA b : [k |-> "string", b |-> b], << << >>, << 91 >>, << 44 >>, << 195, 169 >>, Txt("ab"), << 34 >> >>)
Seqs(vs, n) == Choices([i \in 1..n |-> vs])
RECURSIVE Many(_), Few(_)
Many(T) == CASE T.k = "array" -> LET vs == Few(T.t) IN << [k |-> "array", ts |-> << >>] >> \o MapSeq(LAMBDA s : [k |-> "array", ts |-> s], Seqs(vs, 1) \o Seqs(vs, 2))
             [] T.k = "farray" -> MapSeq(LAMBDA s : [k |-> "farray", ts |-> s], Seqs(Few(T.t), T.n))
             [] T.k = "tuple" -> MapSeq(LAMBDA s : [k |-> "tuple", ts |-> s], Choices(MapSeq(Few, T.ts)))
             [] OTHER -> Leaf(T)
Few(T) == LET m == Many(T) IN IF Depth > 1 THEN SubSeq(m, 1, Min2(Len(m), 6)) ELSE SubSeq(m, 1, Min2(Len(m), 4))
Ts == TLCEval(Types(2))

Init == /\ mPhase = "one"
        /\ \E i \in 1..Len(Ts) : Mine(i) /\ mT = Ts[i]
        /\ LET m == Many(mT) IN \E j \in 1..Len(m) : mA = m[j]
        /\ mB = mA
Other == /\ mPhase = "one" /\ mPhase' = "two"
         /\ LET m == Many(mT) IN \E j \in 1..Min2(Len(m), IF Depth > 1 THEN 60 ELSE 25) : mB' = m[j]
         /\ UNCHANGED << mT, mA >>
RECURSIVE Readable(_)
Readable(v) == CASE v.k \in {"bool", "address"} -> TRUE
              [] v.k \in {"bytes", "fbytes"} -> v.b # << >>
              [] v.k \in {"array", "farray"} -> \A i \in 1..Len(v.ts) : Readable(v.ts[i])
              [] OTHER -> FALSE
Tell == /\ mPhase = "one" /\ mPhase' = "told"
        /\ Vector("show", [tok |-> mA], Expect("show", [tok |-> mA]))
        /\ Readable(mA) => Vector("retok", [tok |-> mA, type |-> mT, mode |-> "strict"], {Ok(mA)})
        /\ UNCHANGED << mT, mA, mB >>
Next == Other \/ Tell

RECURSIVE Distinct(_)
Distinct(v) == CASE v.k = "string" -> FALSE
                 [] v.k = "bytes" -> v.b # << >>
                 [] v.k \in {"array", "farray", "tuple"} -> \A i \in 1..Len(v.ts) : Distinct(v.ts[i])
                 [] OTHER -> TRUE
Injective == mA # mB /\ Distinct(mA) /\ Distinct(mB) => Render(mA) # Render(mB)
ReadBack == Readable(mA) => Tokenize("strict", mT, Render(mA)) = Ok(mA)
\* structs and lists are told apart by their brackets
Bracketed == LET r == Render(mA) IN
    /\ mA.k = "tuple" => r[1] = LParen /\ r[Len(r)] = RParen
    /\ mA.k \in {"array", "farray"} => r[1] = LBrack /\ r[Len(r)] = RBrack
    /\ mA.k \in {"uint", "int"} => r[1] # 48 \/ r = << 48 >>
=============================================================================
