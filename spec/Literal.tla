------------------------------ MODULE Literal -------------------------------
(***************************************************************************)
(* Reading texts as values, strict and lenient, and rendering values.      *)
(***************************************************************************)
EXTENDS AbiTypes, Utf8

\* hex text as bytes
HexBytes(t) ==
    IF Len(t) % 2 = 1 \/ \E i \in 1..Len(t) : HexVal(t[i]) < 0 THEN Err
    ELSE Ok(Seqn(Len(t) \div 2, LAMBDA i : 16 * HexVal(t[2 * i - 1]) + HexVal(t[2 * i])))
HexExactly(t, n) == IF Len(t) = 2 * n THEN HexBytes(t) ELSE Err

(***************************************************************************)
(* Decimal numbers as 32 bytes.  Sixteen 16-bit limbs, least significant   *)
(* first, four digits at a time.                                           *)
(***************************************************************************)
LOCAL MulAdd(l, m, a) ==  \* [l |-> limbs of l * m + a, c |-> carry out]
    Fold(LAMBDA st, x : LET y == x * m + st.c IN [l |-> Append(st.l, y % 65536), c |-> y \div 65536],
         [l |-> << >>, c |-> a], l)
LOCAL Chunks(d) ==  \* d: digits; values of groups of at most four, most significant first
    LET r == Len(d) % 4
        first == IF r = 0 THEN << >> ELSE << SubSeq(d, 1, r) >>
        rest == [i \in 1..(Len(d) \div 4) |-> SubSeq(d, r + 4 * i - 3, r + 4 * i)]
    IN MapSeq(LAMBDA g : [n |-> Fold(LAMBDA a, c : 10 * a + (c - 48), 0, g), m |-> 10 ^ Len(g)], first \o rest)
LOCAL LimbBytes(l) == Seqn(32, LAMBDA i : LET x == l[16 - ((i - 1) \div 2)] IN IF i % 2 = 1 THEN x \div 256 ELSE x % 256)

\* a non-empty text of decimal digits below 2^256, as 32 bytes
Decimal(t) ==
    IF t = << >> \/ \E i \in 1..Len(t) : ~IsDigit(t[i]) THEN Err
    ELSE LET nz == {i \in 1..Len(t) : t[i] # 48}
             d == IF nz = {} THEN << >> ELSE DropN(t, (CHOOSE i \in nz : \A j \in nz : i <= j) - 1)
         IN IF Len(d) > 78 THEN Err
            ELSE LET st == Fold(LAMBDA a, g :
                                  IF a.c # 0 THEN a ELSE MulAdd(a.l, g.m, g.n),
                                [l |-> Zeros(16), c |-> 0], Chunks(d))
                 IN IF st.c # 0 THEN Err ELSE Ok(LimbBytes(st.l))

\* two's complement of a word
Negate(w) ==
    LET lastNz == {i \in 1..32 : w[i] # 0} IN
    IF lastNz = {} THEN w
    ELSE LET k == CHOOSE i \in lastNz : \A j \in lastNz : j <= i
         IN Seqn(32, LAMBDA i : IF i < k THEN 255 - w[i] ELSE IF i = k THEN 256 - w[i] ELSE 0)
LOCAL MinInt == << 128 >> \o Zeros(31)

Signed(t) ==
    LET neg == t # << >> /\ t[1] = Minus
        a == Decimal(IF neg THEN Tail(t) ELSE t)
    IN IF a.s # "ok" THEN Err
       ELSE IF neg THEN (IF a.v[1] < 128 \/ a.v = MinInt THEN Ok(Negate(a.v)) ELSE Err)
       ELSE IF a.v[1] < 128 THEN a ELSE Err

LOCAL Number(k, mode, t) ==
    LET h == HexExactly(t, 32)
        r == IF h.s = "ok" \/ mode = "strict" THEN h
             ELSE IF k = "int" THEN Signed(t) ELSE Decimal(t)
    IN IF r.s = "ok" THEN Ok([k |-> k, w |-> r.v]) ELSE Err

(***************************************************************************)
(* Bracketed lists.  A quote suspends the meaning of brackets and commas   *)
(* until the next one and stays part of the text.                          *)
(***************************************************************************)
LOCAL Scan(t, open, close) ==
    Fold(LAMBDA st, i :
           LET c == t[i] IN
           IF ~st.good THEN st
           ELSE IF c = Quote THEN [st EXCEPT !.q = ~st.q]
           ELSE IF st.q THEN st
           ELSE IF c = open THEN [st EXCEPT !.d = st.d + 1]
           ELSE IF c = close THEN
                IF st.d = 1 /\ i = Len(t) THEN [st EXCEPT !.d = 0, !.cuts = Append(st.cuts, i)]
                ELSE IF st.d <= 1 THEN [st EXCEPT !.good = FALSE]
                ELSE [st EXCEPT !.d = st.d - 1]
           ELSE IF c = Comma /\ st.d = 1 THEN [st EXCEPT !.cuts = Append(st.cuts, i)]
           ELSE st,
         [d |-> 0, q |-> FALSE, cuts |-> << >>, good |-> TRUE], Ints(Len(t)))
\* the texts between the brackets
LOCAL Parts(t, open, close) ==
    IF Len(t) < 2 \/ t[1] # open \/ t[Len(t)] # close THEN Err
    ELSE LET st == Scan(t, open, close) IN
         IF ~st.good \/ st.q \/ st.d # 0 THEN Err
         ELSE Ok(Seqn(Len(st.cuts), LAMBDA i :
                  SubSeq(t, (IF i = 1 THEN 2 ELSE st.cuts[i - 1] + 1), st.cuts[i] - 1)))

LOCAL tTrue == Txt("true")
LOCAL tFalse == Txt("false")
LOCAL Wrap(k, r) == IF r.s = "ok" THEN Ok([k |-> k, ts |-> r.v]) ELSE Err

RECURSIVE Tokenize(_, _, _)
LOCAL List(mode, T, t) ==
    IF t = << LBrack, RBrack >> THEN Ok(<< >>)
    ELSE LET p == Parts(t, LBrack, RBrack) IN
         IF p.s # "ok" THEN Err ELSE Sequence(MapSeq(LAMBDA x : Tokenize(mode, T, x), p.v))
Tokenize(mode, T, t) ==
    CASE T.k = "address" -> LET r == HexExactly(t, 20) IN IF r.s = "ok" THEN Ok([k |-> "address", w |-> r.v]) ELSE Err
      [] T.k = "string" -> Ok([k |-> "string", b |-> Utf8Text(t)])
      [] T.k = "bool" -> IF t = tTrue \/ t = << 49 >> THEN Ok([k |-> "bool", v |-> TRUE])
                         ELSE IF t = tFalse \/ t = << 48 >> THEN Ok([k |-> "bool", v |-> FALSE]) ELSE Err
      [] T.k = "bytes" -> LET r == HexBytes(t) IN IF r.s = "ok" THEN Ok([k |-> "bytes", b |-> r.v]) ELSE Err
      [] T.k = "fbytes" -> LET r == HexExactly(t, T.n) IN IF r.s = "ok" THEN Ok([k |-> "fbytes", b |-> r.v]) ELSE Err
      [] T.k \in {"int", "uint"} -> Number(T.k, mode, t)
      [] T.k = "array" -> Wrap("array", List(mode, T.t, t))
      [] T.k = "farray" -> LET r == List(mode, T.t, t) IN
                           IF r.s = "ok" /\ Len(r.v) = T.n THEN Wrap("farray", r) ELSE Err
      [] T.k = "tuple" ->
            IF T.ts = << >> /\ t = << LParen, RParen >> THEN Ok([k |-> "tuple", ts |-> << >>])
            ELSE LET p == Parts(t, LParen, RParen) IN
                 IF p.s # "ok" THEN Err
                 ELSE IF Len(p.v) # Len(T.ts) THEN Err
                 ELSE Wrap("tuple", Sequence(Seqn(Len(T.ts), LAMBDA i : Tokenize(mode, T.ts[i], p.v[i]))))

(***************************************************************************)
(* Rendering, as UTF-8 bytes.                                              *)
(***************************************************************************)
LOCAL MinHex(w) ==
    LET h == HexText(w)
        nz == {i \in 1..Len(h) : h[i] # 48}
    IN IF nz = {} THEN << 48 >> ELSE DropN(h, (CHOOSE i \in nz : \A j \in nz : i <= j) - 1)
RECURSIVE Render(_)
Render(v) ==
    CASE v.k = "bool" -> IF v.v THEN tTrue ELSE tFalse
      [] v.k = "string" -> v.b
      [] v.k = "address" -> HexText(v.w)
      [] v.k \in {"bytes", "fbytes"} -> HexText(v.b)
      [] v.k \in {"int", "uint"} -> MinHex(v.w)
      [] v.k \in {"array", "farray"} -> << LBrack >> \o Join(MapSeq(Render, v.ts), << Comma >>) \o << RBrack >>
      [] v.k = "tuple" -> << LParen >> \o Join(MapSeq(Render, v.ts), << Comma >>) \o << RParen >>
=============================================================================
