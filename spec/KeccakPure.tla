----------------------------- MODULE KeccakPure -----------------------------
(***************************************************************************)
(* Keccak-256 (the original padding, as used by Ethereum) in pure TLA+.    *)
(*                                                                         *)
(* A 64-bit lane is a sequence of four 16-bit limbs, least significant     *)
(* first; the state is a sequence of 25 lanes, lane (x,y) at 1 + x + 5*y.  *)
(* Messages and digests are sequences of bytes 0..255.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE Bitwise
LOCAL INSTANCE SequencesExt

LOCAL Xor4(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>

LOCAL Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536 >>

\* rotation of a lane to the left by 16 * q + s bits
LOCAL Limb(a, i) == a[((i + 8) % 4) + 1]
LOCAL RotLimb(a, i, q, s) ==
    IF s = 0 THEN Limb(a, i - q)
    ELSE ((Limb(a, i - q) * Pow2[s + 1]) % 65536) + (Limb(a, i - q - 1) \div Pow2[17 - s])
LOCAL Rot(a, r) ==
    LET q == r \div 16
        s == r % 16
    IN << RotLimb(a, 0, q, s), RotLimb(a, 1, q, s), RotLimb(a, 2, q, s), RotLimb(a, 3, q, s) >>

\* rotation offsets, in lane order
LOCAL RotC == << 0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39,
           41, 45, 15, 21, 8, 18, 2, 61, 56, 14 >>

\* round constants, four limbs each, least significant first
LOCAL RC == <<
  << 1, 0, 0, 0 >>, << 32898, 0, 0, 0 >>, << 32906, 0, 0, 32768 >>, << 32768, 32768, 0, 32768 >>,
  << 32907, 0, 0, 0 >>, << 1, 32768, 0, 0 >>, << 32897, 32768, 0, 32768 >>, << 32777, 0, 0, 32768 >>,
  << 138, 0, 0, 0 >>, << 136, 0, 0, 0 >>, << 32777, 32768, 0, 0 >>, << 10, 32768, 0, 0 >>,
  << 32907, 32768, 0, 0 >>, << 139, 0, 0, 32768 >>, << 32905, 0, 0, 32768 >>, << 32771, 0, 0, 32768 >>,
  << 32770, 0, 0, 32768 >>, << 128, 0, 0, 32768 >>, << 32778, 0, 0, 0 >>, << 10, 32768, 0, 32768 >>,
  << 32897, 32768, 0, 32768 >>, << 32896, 0, 0, 32768 >>, << 1, 32768, 0, 0 >>, << 32776, 32768, 0, 32768 >> >>

LOCAL Ix(x, y) == 1 + (x % 5) + 5 * (y % 5)

LOCAL Theta(a) ==
    LET col(x) == Xor4(Xor4(Xor4(a[x], a[x + 5]), Xor4(a[x + 10], a[x + 15])), a[x + 20])
        c == TLCEval(<< col(1), col(2), col(3), col(4), col(5) >>)
        dd(x) == Xor4(c[((x + 4) % 5) + 1], Rot(c[((x + 1) % 5) + 1], 1))
        d == TLCEval(<< dd(0), dd(1), dd(2), dd(3), dd(4) >>)
    IN TLCEval([i \in 1..25 |-> Xor4(a[i], d[((i - 1) % 5) + 1])])

\* rho and pi: lane (x,y) moves to (y, 2x+3y); Source maps a target index to its source
LOCAL Source == [i \in 1..25 |->
    CHOOSE j \in 1..25 :
        LET x == (j - 1) % 5
            y == (j - 1) \div 5
        IN i = Ix(y, 2 * x + 3 * y)]
LOCAL RhoPi(a) == TLCEval([i \in 1..25 |-> Rot(a[Source[i]], RotC[Source[i]])])

LOCAL ChiLimb(a, b, c) == a ^^ ((65535 - b) & c)
LOCAL Chi4(a, b, c) == << ChiLimb(a[1], b[1], c[1]), ChiLimb(a[2], b[2], c[2]),
                          ChiLimb(a[3], b[3], c[3]), ChiLimb(a[4], b[4], c[4]) >>
LOCAL Chi(b) == TLCEval([i \in 1..25 |->
    LET x == (i - 1) % 5
        y == (i - 1) \div 5
    IN Chi4(b[i], b[Ix(x + 1, y)], b[Ix(x + 2, y)])])

LOCAL Iota(a, r) == TLCEval([a EXCEPT ![1] = Xor4(a[1], RC[r])])

LOCAL Round(a, r) == Iota(Chi(RhoPi(Theta(a))), r)

LOCAL KeccakF(a) == FoldLeft(Round, a, [r \in 1..24 |-> r])

LOCAL Rate == 136

\* pad10*1 with the domain bits of the original Keccak submission
LOCAL Padded(m) ==
    LET k == Rate - (Len(m) % Rate)
    IN IF k = 1 THEN m \o << 129 >>
       ELSE m \o << 1 >> \o [i \in 1..(k - 2) |-> 0] \o << 128 >>

LOCAL LaneOf(m, o) == << m[o + 1] + 256 * m[o + 2], m[o + 3] + 256 * m[o + 4],
                         m[o + 5] + 256 * m[o + 6], m[o + 7] + 256 * m[o + 8] >>

LOCAL Absorb(m, a, block) ==
    KeccakF(TLCEval([i \in 1..25 |->
        IF i <= 17 THEN Xor4(a[i], LaneOf(m, (block - 1) * Rate + (i - 1) * 8)) ELSE a[i]]))

LOCAL ByteOf(a, i) ==  \* i in 0..31
    LET l == a[(i \div 8) + 1][((i % 8) \div 2) + 1]
    IN IF i % 2 = 0 THEN l % 256 ELSE l \div 256

PureKeccak256(msg) ==
    LET m == TLCEval(Padded(msg))
        a == FoldLeft(LAMBDA s, b : Absorb(m, s, b), [i \in 1..25 |-> << 0, 0, 0, 0 >>],
                      [b \in 1..(Len(m) \div Rate) |-> b])
    IN TLCEval([i \in 1..32 |-> ByteOf(a, i - 1)])

=============================================================================
