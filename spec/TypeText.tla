------------------------------ MODULE TypeText ------------------------------
(***************************************************************************)
(* The text of types: canonical writing, the JSON ABI form ("tuple[]"),    *)
(* and reading.  A read reply carries `lax' when the text is outside the   *)
(* grammar of Solidity but unambiguous (sizes Solidity does not have,      *)
(* leading zeros, a plus sign, empty tuple members): such a text may also  *)
(* be refused.                                                             *)
(***************************************************************************)
EXTENDS AbiTypes

LOCAL tAddress == Txt("address")
LOCAL tBytes == Txt("bytes")
LOCAL tBool == Txt("bool")
LOCAL tString == Txt("string")
LOCAL tInt == Txt("int")
LOCAL tUint == Txt("uint")
LOCAL tTuple == Txt("tuple")

RECURSIVE WriteWith(_, _)
WriteWith(T, full) ==
    CASE T.k = "address" -> tAddress
      [] T.k = "bytes" -> tBytes
      [] T.k = "bool" -> tBool
      [] T.k = "string" -> tString
      [] T.k = "int" -> tInt \o DecText(T.n)
      [] T.k = "uint" -> tUint \o DecText(T.n)
      [] T.k = "fbytes" -> tBytes \o DecText(T.n)
      [] T.k = "array" -> WriteWith(T.t, full) \o << LBrack, RBrack >>
      [] T.k = "farray" -> WriteWith(T.t, full) \o << LBrack >> \o DecText(T.n) \o << RBrack >>
      [] T.k = "tuple" ->
            IF full THEN << LParen >> \o Join(MapSeq(LAMBDA x : WriteWith(x, full), T.ts), << Comma >>) \o << RParen >>
            ELSE tTuple
WriteType(T) == WriteWith(T, TRUE)
WriteAbiType(T) == WriteWith(T, FALSE)

\* name(T1,...,Tn), the text that is hashed
SignatureText(name, Ts) ==
    name \o << LParen >> \o Join(MapSeq(WriteType, Ts), << Comma >>) \o << RParen >>
\* the printed signature of a function
PrintedSignature(name, ins, outs) ==
    SignatureText(name, ins) \o (IF outs = << >> THEN << >> ELSE Txt(":") \o SignatureText(<< >>, outs))

LOCAL Bad == [s |-> "err", lax |-> FALSE]
LOCAL Good(T) == [s |-> "ok", v |-> T, lax |-> FALSE]
LOCAL Odd(T) == [s |-> "ok", v |-> T, lax |-> TRUE]

\* a size: [s, n, lax]; at most nine digits after leading zeros are considered
LOCAL ReadSize(t) ==
    LET d == IF t # << >> /\ t[1] = 43 THEN Tail(t) ELSE t
        nz == {i \in 1..Len(d) : d[i] # 48}
        lead == IF nz = {} THEN Len(d) - 1 ELSE (CHOOSE i \in nz : \A j \in nz : i <= j) - 1
        num == DropN(d, lead)
    IN IF d = << >> \/ \E i \in 1..Len(d) : ~IsDigit(d[i]) THEN [s |-> "err"]
       ELSE IF Len(num) > 20 THEN [s |-> "err"]
       ELSE IF Len(num) > 9 THEN [s |-> "huge"]
       ELSE [s |-> "ok", n |-> Fold(LAMBDA a, c : 10 * a + (c - 48), 0, num), lax |-> lead > 0 \/ d # t]

LOCAL Sized(k, t, Valid(_)) ==
    LET z == ReadSize(t) IN
    IF z.s # "ok" THEN Bad
    ELSE IF z.lax \/ ~Valid(z.n) THEN Odd([k |-> k, n |-> z.n]) ELSE Good([k |-> k, n |-> z.n])

LOCAL Elementary(t) ==
    CASE t = tAddress -> Good([k |-> "address"])
      [] t = tBytes -> Good([k |-> "bytes"])
      [] t = tBool -> Good([k |-> "bool"])
      [] t = tString -> Good([k |-> "string"])
      [] t = tInt -> Good([k |-> "int", n |-> 256])
      [] t = tUint -> Good([k |-> "uint", n |-> 256])
      [] t = tTuple -> Good([k |-> "tuple", ts |-> << >>])
      [] StartsWith(t, tInt) -> Sized("int", DropN(t, 3), LAMBDA n : n % 8 = 0 /\ n >= 8 /\ n <= 256)
      [] StartsWith(t, tUint) -> Sized("uint", DropN(t, 4), LAMBDA n : n % 8 = 0 /\ n >= 8 /\ n <= 256)
      [] StartsWith(t, tBytes) -> Sized("fbytes", DropN(t, 5), LAMBDA n : n >= 1 /\ n <= 32)
      [] OTHER -> Bad

\* nesting depth of parentheses after each position
LOCAL Depths(t) ==
    Fold(LAMBDA a, c : Append(a, (IF a = << >> THEN 0 ELSE a[Len(a)]) + (IF c = LParen THEN 1 ELSE IF c = RParen THEN -1 ELSE 0)),
         << >>, t)
\* the texts between the outer parentheses and the commas of depth one
LOCAL Items(t, d) ==
    LET cuts == SelectSeq(Ints(Len(t)), LAMBDA i : (t[i] = Comma /\ d[i] = 1) \/ i = Len(t))
    IN Seqn(Len(cuts), LAMBDA i : SubSeq(t, (IF i = 1 THEN 2 ELSE cuts[i - 1] + 1), cuts[i] - 1))

RECURSIVE ReadType(_)
ReadType(t) ==
    IF t = << >> THEN Bad
    ELSE IF t[Len(t)] = RParen THEN
        LET d == Depths(t) IN
        IF t[1] # LParen \/ d[Len(t)] # 0 \/ \E i \in 1..(Len(t) - 1) : d[i] < 1 THEN Bad
        ELSE LET its == Items(t, d)
                 full == SelectSeq(its, LAMBDA x : x # << >>)
                 rs == MapSeq(ReadType, full)
             IN IF ~AllOk(rs) THEN Bad
                ELSE LET T == [k |-> "tuple", ts |-> Vals(rs)] IN
                     IF (\E i \in 1..Len(rs) : rs[i].lax) \/ (Len(full) # Len(its) /\ Len(its) > 1)
                     THEN Odd(T) ELSE Good(T)
    ELSE IF t[Len(t)] = RBrack THEN
        LET o == LastIndex(t, LBrack) IN
        IF o = 0 THEN Bad
        ELSE LET e == ReadType(SubSeq(t, 1, o - 1))
                 num == SubSeq(t, o + 1, Len(t) - 1)
                 z == ReadSize(num)
             IN IF e.s # "ok" THEN Bad
                ELSE IF num = << >> THEN [e EXCEPT !.v = [k |-> "array", t |-> e.v]]
                ELSE IF z.s # "ok" THEN Bad
                ELSE LET T == [k |-> "farray", t |-> e.v, n |-> z.n] IN
                     IF e.lax \/ z.lax \/ z.n = 0 THEN Odd(T) ELSE Good(T)
    ELSE Elementary(t)

ReadTypeReplies(t) ==
    LET r == ReadType(t) IN
    IF r.s # "ok" THEN {Err} ELSE IF r.lax THEN {Ok(r.v), Err} ELSE {Ok(r.v)}
=============================================================================
