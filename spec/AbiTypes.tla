------------------------------ MODULE AbiTypes ------------------------------
(***************************************************************************)
(* Types and values of the contract ABI.                                   *)
(*                                                                         *)
(* Types   [k |-> "address" | "bytes" | "bool" | "string"]                 *)
(*         [k |-> "int" | "uint" | "fbytes", n |-> width]                  *)
(*         [k |-> "array", t |-> T]   [k |-> "farray", t |-> T, n |-> N]   *)
(*         [k |-> "tuple", ts |-> << T1, ... >>]                           *)
(* Values  [k |-> "address" | "int" | "uint", w |-> 20 or 32 bytes]        *)
(*         [k |-> "bytes" | "fbytes" | "string", b |-> bytes]              *)
(*         [k |-> "bool", v |-> BOOLEAN]                                   *)
(*         [k |-> "array" | "farray" | "tuple", ts |-> << V1, ... >>]      *)
(***************************************************************************)
EXTENDS Base

RECURSIVE TypeDynamic(_)
TypeDynamic(T) ==
    CASE T.k \in {"bytes", "string", "array"} -> TRUE
      [] T.k = "farray" -> TypeDynamic(T.t)
      [] T.k = "tuple" -> \E i \in 1..Len(T.ts) : TypeDynamic(T.ts[i])
      [] OTHER -> FALSE

RECURSIVE TokenDynamic(_)
TokenDynamic(v) ==
    CASE v.k \in {"bytes", "string", "array"} -> TRUE
      [] v.k \in {"farray", "tuple"} -> \E i \in 1..Len(v.ts) : TokenDynamic(v.ts[i])
      [] OTHER -> FALSE

\* bytes a value of the type occupies in the head it belongs to
RECURSIVE HeadSize(_)
HeadSize(T) ==
    CASE T.k = "farray" -> IF TypeDynamic(T.t) THEN 32 ELSE T.n * HeadSize(T.t)
      [] T.k = "tuple" -> IF TypeDynamic(T) THEN 32 ELSE SumSeq(MapSeq(HeadSize, T.ts))
      [] OTHER -> 32

\* the value fits the type
RECURSIVE TypeCheck(_, _)
TypeCheck(v, T) ==
    CASE v.k \in {"address", "bytes", "string", "bool", "int", "uint"} -> v.k = T.k
      [] v.k = "fbytes" -> /\ T.k = "fbytes"
                           /\ Len(v.b) <= T.n
                           /\ (Len(v.b) = 0 => T.n = 0)
      [] v.k = "array" -> T.k = "array" /\ \A i \in 1..Len(v.ts) : TypeCheck(v.ts[i], T.t)
      [] v.k = "farray" -> /\ T.k = "farray"
                           /\ Len(v.ts) = T.n
                           /\ \A i \in 1..Len(v.ts) : TypeCheck(v.ts[i], T.t)
      [] v.k = "tuple" -> /\ T.k = "tuple"
                          /\ Len(v.ts) = Len(T.ts)
                          /\ \A i \in 1..Len(v.ts) : TypeCheck(v.ts[i], T.ts[i])

TypesCheck(vs, Ts) == Len(vs) = Len(Ts) /\ \A i \in 1..Len(vs) : TypeCheck(vs[i], Ts[i])

\* the types whose encoding may be the empty byte string on its own
EmptyIsEncoding(T) == T.k \in {"fbytes", "farray"} /\ T.n = 0
=============================================================================
