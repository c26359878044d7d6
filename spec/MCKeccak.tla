------------------------------ MODULE MCKeccak ------------------------------
(***************************************************************************)
(* Messages of every length up to three blocks, of several contents: the   *)
(* fast evaluation of Keccak256 is the definition.                         *)
(***************************************************************************)
EXTENDS Keccak, IOUtils
VARIABLES mLen, mKind
LOCAL Max == IF atoi(IOEnv.DEPTH) > 1 THEN 420 ELSE 150
Init == mLen = atoi(IOEnv.SHARD) /\ mKind \in 1..3
Next == mLen + atoi(IOEnv.SHARDS) <= Max /\ mLen' = mLen + atoi(IOEnv.SHARDS) /\ mKind' = mKind
Byte(i) == CASE mKind = 1 -> 0 [] mKind = 2 -> 255 [] OTHER -> (i * i + 31 * i + mLen) % 256
Message == [i \in 1..mLen |-> Byte(i)]
Agrees == Keccak256(Message) = PureKeccak256(Message)
\* the hash of nothing, a known value
Known == mLen = 0 => SubSeq(PureKeccak256(<< >>), 1, 4) = << 197, 210, 70, 1 >>
=============================================================================
