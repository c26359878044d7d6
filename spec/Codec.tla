------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The contract ABI: what the bytes of a list of values are, and what      *)
(* values a byte string stands for.  Written over an abstract algebra of   *)
(* byte strings so that the same text serves plain sequences (Flat) and    *)
(* run-length encoded strings of many megabytes (Runs).                    *)
(***************************************************************************)
EXTENDS AbiTypes

CONSTANTS Lit(_),        \* byte sequence -> byte string
          Cat(_, _),     \* concatenation
          BLen(_),       \* length
          Sub(_, _, _),  \* Sub(d, o, n): n bytes at offset o (in range)
          Flat(_),       \* byte string -> byte sequence
          LossyStr(_)    \* lossy UTF-8

LOCAL CatAll(ss) == Fold(Cat, Lit(<< >>), ss)

\* a number below 2^31 as a word
Word(n) == Zeros(28) \o << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>

LOCAL PadRight(b) == LET m == BLen(b) % 32 IN IF m = 0 THEN b ELSE Cat(b, Lit(Zeros(32 - m)))

(***************************************************************************)
(* Encoding: enc of a sequence is its heads followed by its tails.  The    *)
(* payloads b of values are byte strings of the algebra.                   *)
(***************************************************************************)
RECURSIVE Enc(_)
EncSeq(vs) ==
    LET n == Len(vs)
        dyn == MapSeq(TokenDynamic, vs)
        body == MapSeq(Enc, vs)
        heads == Fold(LAMBDA a, i : a + (IF dyn[i] THEN 32 ELSE BLen(body[i])), 0, Ints(n))
        out == Fold(LAMBDA a, i :
                       IF dyn[i] THEN [h |-> Cat(a.h, Lit(Word(a.o))), t |-> Cat(a.t, body[i]), o |-> a.o + BLen(body[i])]
                       ELSE [a EXCEPT !.h = Cat(a.h, body[i])],
                    [h |-> Lit(<< >>), t |-> Lit(<< >>), o |-> heads], Ints(n))
    IN Cat(out.h, out.t)
Enc(v) ==
    CASE v.k = "address" -> Lit(Zeros(12) \o v.w)
      [] v.k \in {"int", "uint"} -> Lit(v.w)
      [] v.k = "bool" -> Lit(Zeros(31) \o << IF v.v THEN 1 ELSE 0 >>)
      [] v.k = "fbytes" -> PadRight(v.b)
      [] v.k \in {"bytes", "string"} -> Cat(Lit(Word(BLen(v.b))), PadRight(v.b))
      [] v.k = "array" -> Cat(Lit(Word(Len(v.ts))), EncSeq(v.ts))
      [] v.k \in {"farray", "tuple"} -> EncSeq(v.ts)

Encode(vs) == EncSeq(vs)

(***************************************************************************)
(* Decoding: position p of the data holds the head of a value of type T,   *)
(* base is where the enclosing sequence of heads starts (offsets count     *)
(* from there).  `word' is the number of bytes a bytesN value needs after  *)
(* its position: 32 (whole words only) or 0 (its own N bytes suffice).     *)
(***************************************************************************)
LOCAL Fits(d, p, n) == p <= BLen(d) /\ n <= BLen(d) - p
LOCAL WordAt(d, p) == Flat(Sub(d, p, 32))

\* a header word as a number; -1: does not fit 32 bits, or is 2^31 or more,
\* which is past the end of any data considered here
LOCAL Number(w) == IF \E i \in 1..28 : w[i] # 0 \/ w[29] > 127 THEN -1
                   ELSE w[29] * 16777216 + w[30] * 65536 + w[31] * 256 + w[32]
\* the number at p, if it is a possible distance from base inside the data
LOCAL Distance(d, p, base) ==
    IF ~Fits(d, p, 32) THEN -1
    ELSE LET x == Number(WordAt(d, p)) IN IF x > BLen(d) - base THEN -1 ELSE x

RECURSIVE Dec(_, _, _, _, _)
\* n values, the i-th of type F(i) with its head at p + At(i)
LOCAL DecAll(n, F(_), At(_), d, base, p, word) ==
    LET rs == Seqn(n, LAMBDA i : Dec(F(i), d, base, p + At(i), word)) IN Sequence(rs)
LOCAL DecElems(T, n, d, base, p, word) ==
    \* each element takes a word of head at least: a longer list than that cannot be there
    IF p > BLen(d) \/ n > (BLen(d) - p + 31) \div 32 THEN Err
    ELSE LET h == HeadSize(T) IN DecAll(n, LAMBDA i : T, LAMBDA i : (i - 1) * h, d, base, p, word)
LOCAL DecMembers(Ts, d, base, p, word) ==
    LET hs == MapSeq(HeadSize, Ts)
        at == Fold(LAMBDA a, h : Append(a, a[Len(a)] + h), << 0 >>, hs)
    IN DecAll(Len(Ts), LAMBDA i : Ts[i], LAMBDA i : at[i], d, base, p, word)
LOCAL Payload(d, base, p) ==
    LET o == Distance(d, p, base) IN
    IF o < 0 THEN Err
    ELSE LET n == Distance(d, base + o, 0) IN
         IF n < 0 \/ ~Fits(d, base + o + 32, n) THEN Err
         ELSE Ok(Sub(d, base + o + 32, n))
LOCAL Wrap(k, r) == IF r.s = "ok" THEN Ok([k |-> k, ts |-> r.v]) ELSE Err

Dec(T, d, base, p, word) ==
    CASE T.k = "address" -> IF Fits(d, p, 32) THEN Ok([k |-> "address", w |-> SubSeq(WordAt(d, p), 13, 32)]) ELSE Err
      [] T.k \in {"int", "uint"} -> IF Fits(d, p, 32) THEN Ok([k |-> T.k, w |-> WordAt(d, p)]) ELSE Err
      [] T.k = "bool" ->
            IF ~Fits(d, p, 32) THEN Err
            ELSE LET w == WordAt(d, p) IN
                 IF (\E i \in 1..31 : w[i] # 0) \/ w[32] > 1 THEN Err
                 ELSE Ok([k |-> "bool", v |-> w[32] = 1])
      [] T.k = "fbytes" ->
            IF Fits(d, p, IF T.n > word THEN T.n ELSE word) THEN Ok([k |-> "fbytes", b |-> Sub(d, p, T.n)]) ELSE Err
      [] T.k = "bytes" -> LET r == Payload(d, base, p) IN IF r.s = "ok" THEN Ok([k |-> "bytes", b |-> r.v]) ELSE Err
      [] T.k = "string" -> LET r == Payload(d, base, p) IN IF r.s = "ok" THEN Ok([k |-> "string", b |-> LossyStr(r.v)]) ELSE Err
      [] T.k = "array" ->
            LET o == Distance(d, p, base) IN
            IF o < 0 THEN Err
            ELSE LET n == Distance(d, base + o, 0) IN
                 IF n < 0 THEN Err
                 ELSE Wrap("array", DecElems(T.t, n, d, base + o + 32, base + o + 32, word))
      [] T.k = "farray" ->
            IF TypeDynamic(T)
            THEN LET o == Distance(d, p, base) IN
                 IF o < 0 THEN Err ELSE Wrap("farray", DecElems(T.t, T.n, d, base + o, base + o, word))
            ELSE Wrap("farray", DecElems(T.t, T.n, d, base, p, word))
      [] T.k = "tuple" ->
            IF TypeDynamic(T)
            THEN LET o == Distance(d, p, base) IN
                 IF o < 0 THEN Err ELSE Wrap("tuple", DecMembers(T.ts, d, base + o, base + o, word))
            ELSE Wrap("tuple", DecMembers(T.ts, d, base, p, word))

LOCAL DecodeWith(Ts, d, word) ==
    IF BLen(d) = 0 /\ \E i \in 1..Len(Ts) : ~EmptyIsEncoding(Ts[i]) THEN Err
    ELSE DecMembers(Ts, d, 0, 0, word)

(***************************************************************************)
(* What a decoder has to look at, at most, in values and words of payload: *)
(* what the data really holds, whatever else it claims.                    *)
(***************************************************************************)
RECURSIVE Look(_, _, _, _)
LOCAL LookElems(T, n, d, base, p) ==
    IF p > BLen(d) THEN 0
    ELSE LET m == Min2(n, (BLen(d) - p + 31) \div 32 + 1)
             h == HeadSize(T)
         IN IF T.k \in {"address", "int", "uint", "bool", "fbytes"} THEN m
            ELSE SumSeq(Seqn(m, LAMBDA i : Look(T, d, base, p + (i - 1) * h)))
LOCAL LookMembers(Ts, d, base, p) ==
    LET at == Fold(LAMBDA a, T : Append(a, a[Len(a)] + HeadSize(T)), << 0 >>, Ts)
    IN SumSeq(Seqn(Len(Ts), LAMBDA i : Look(Ts[i], d, base, p + at[i])))
Look(T, d, base, p) ==
    1 + (CASE T.k \in {"bytes", "string"} -> LET r == Payload(d, base, p) IN IF r.s = "ok" THEN BLen(r.v) \div 32 ELSE 0
           [] T.k = "array" ->
               LET o == Distance(d, p, base) IN
               IF o < 0 \/ ~Fits(d, base + o, 32) THEN 0
               ELSE LET n == Number(WordAt(d, base + o))
                    IN LookElems(T.t, IF n < 0 THEN BLen(d) ELSE n, d, base + o + 32, base + o + 32)
           [] T.k = "farray" ->
               IF TypeDynamic(T)
               THEN LET o == Distance(d, p, base) IN IF o < 0 THEN 0 ELSE LookElems(T.t, T.n, d, base + o, base + o)
               ELSE LookElems(T.t, T.n, d, base, p)
           [] T.k = "tuple" ->
               IF TypeDynamic(T)
               THEN LET o == Distance(d, p, base) IN IF o < 0 THEN 0 ELSE LookMembers(T.ts, d, base + o, base + o)
               ELSE LookMembers(T.ts, d, base, p)
           [] OTHER -> 0)
Looks(Ts, d) == LookMembers(Ts, d, 0, 0)

Decode(Ts, d) == DecodeWith(Ts, d, 0)
\* The ABI has whole words only.  Data that ends inside the padding of a bytesN
\* value may be refused or accepted.
DecodeReplies(Ts, d) == {DecodeWith(Ts, d, 0), DecodeWith(Ts, d, 32)}
=============================================================================
