------------------------------- MODULE MCCli --------------------------------
(***************************************************************************)
(* Command lines, grown word by word, next to a machine that takes them    *)
(* apart: options take the words that follow them, the other words are     *)
(* positional, and what is left over or missing makes no command line.     *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mWords,  \* the words after the command and subcommand
          mPos,    \* positional words
          mVals,   \* words taken by the option of the command
          mNeed,   \* how many words the option at hand still takes
          mFlags,  \* how often --lenient was given
          mBad,    \* no command line any more
          mTold
vars == << mWords, mPos, mVals, mNeed, mFlags, mBad, mTold >>
Part == IOEnv.PART   \* "encode params", "encode function", "decode params", "decode function" or "decode log"

S(t) == [j |-> "str", t |-> Txt(t)]
A(s) == [j |-> "arr", a |-> s]
O(es) == [j |-> "obj", o |-> es]
K(k, v) == << Txt(k), v >>
B(b) == [j |-> "bool", b |-> b]
P(n, t) == O(<< K("name", S(n)), K("type", S(t)) >>)
I(n, t) == O(<< K("name", S(n)), K("type", S(t)), K("indexed", B(TRUE)) >>)
F(n, ts, us) == O(<< K("type", S("function")), K("name", S(n)), K("inputs", A(ts)), K("outputs", A(us)) >>)
Ev(n, ts) == O(<< K("anonymous", B(FALSE)), K("inputs", A(ts)), K("name", S(n)), K("type", S("event")) >>)
File == A(<< F("f", << P("a", "bool") >>, << P("", "bool") >>), F("g", << >>, << >>), F("g", << P("", "int256") >>, << P("", "int256") >>), F("h", << P("", "uint8"), P("", "bool") >>, << P("", "uint8"), P("", "bool") >>),
            Ev("E", << I("x", "bool"), P("y", "uint8") >>), Ev("f", << P("z", "bool") >>), Ev("f", << I("z", "bool") >>) >>)
Iface == TLCEval(LoadReply(File).v)
At == << 64 >>            \* stands for the path of the file
OneHex == TLCEval(HexText(Zeros(31) \o << 1 >>))
TwoHex == TLCEval(HexText(Zeros(31) \o << 1 >> \o Zeros(31) \o << 1 >>))
SigHex == TLCEval(HexText(SignatureTopic(Iface.evs[1])))
SigHex2 == TLCEval(HexText(SignatureTopic(Iface.evs[3])))

Menu == CASE Part = "encode params" -> << Txt("-v"), Txt("-l"), Txt("bool"), Txt("int256"), Txt("1"), Txt("-1"), Txt("--lenient"), OneHex >>
          [] Part = "encode function" -> << At, Txt("-p"), Txt("-l"), Txt("f"), Txt("g(int256):(int256)"), Txt("1"), Txt("g"), OneHex, Txt("-1") >>
          [] Part = "decode params" -> << Txt("-t"), Txt("bool"), OneHex, TwoHex, Txt("uint8"), Txt("00"), Txt("x") >>
          [] Part = "decode function" -> << At, Txt("f"), Txt("f(bool):(bool)"), OneHex, TwoHex, Txt("h"), Txt("g"), Txt("g()"), Txt("f(bool)"), << >>, Txt("zz") >>
          [] OTHER -> << At, Txt("E"), Txt("-l"), OneHex, SigHex, Txt("f"), Txt("f(bool)"), Txt("E(bool, uint8)"), SigHex2 >>
Takes == CASE Part = "encode params" -> << Txt("-v"), 2 >> [] Part = "encode function" -> << Txt("-p"), 1 >> [] Part = "decode params" -> << Txt("-t"), 1 >>
           [] Part = "decode log" -> << Txt("-l"), 1 >> [] OTHER -> << Txt("none"), 0 >>
Lenient(w) == Part \in {"encode params", "encode function"} /\ w \in {Txt("-l"), Txt("--lenient")}
\* an encoder's option takes any word, a decoder's none that looks like an option
Hyphens == Part \in {"encode params", "encode function"}
Places == CASE Part = "encode params" -> 0 [] Part = "encode function" -> 2 [] Part = "decode params" -> 1 [] OTHER -> 3
MaxWords == CASE Part = "encode params" -> 5 [] Part = "encode function" -> 5 [] Part = "decode params" -> 6 [] Part = "decode function" -> 4 [] OTHER -> 5
Max == MaxWords + (IF Depth > 1 THEN 1 ELSE 0)

Init == mWords = << >> /\ mPos = << >> /\ mVals = << >> /\ mNeed = 0 /\ mFlags = 0 /\ mBad = FALSE /\ mTold = FALSE
Take(w) ==
    IF mNeed > 0
    THEN IF w # << >> /\ w[1] = 45 /\ ~Hyphens THEN mBad' = TRUE /\ UNCHANGED << mPos, mVals, mNeed, mFlags >>
         ELSE mVals' = Append(mVals, w) /\ mNeed' = mNeed - 1 /\ UNCHANGED << mPos, mFlags, mBad >>
    ELSE IF w = Takes[1] THEN mNeed' = Takes[2] /\ UNCHANGED << mPos, mVals, mFlags, mBad >>
    ELSE IF Lenient(w) THEN mFlags' = mFlags + 1 /\ UNCHANGED << mPos, mVals, mNeed, mBad >>
    ELSE IF w # << >> /\ w[1] = 45 THEN mBad' = TRUE /\ UNCHANGED << mPos, mVals, mNeed, mFlags >>
    ELSE mPos' = Append(mPos, w) /\ UNCHANGED << mVals, mNeed, mFlags, mBad >>
Grow == /\ ~mTold /\ Len(mWords) < Max
        /\ \E i \in 1..Len(Menu) : (Len(mWords) = 1 => Mine(i)) /\ mWords' = Append(mWords, Menu[i]) /\ Take(Menu[i])
        /\ UNCHANGED mTold

IsLine == ~mBad /\ mNeed = 0 /\ mFlags <= 1 /\ Len(mPos) = Places
Mode == IF mFlags > 0 THEN "lenient" ELSE "strict"
FileAt == IF mPos[1] = At THEN << File >> ELSE << >>
Op == IF ~IsLine THEN "cli_usage"
      ELSE CASE Part = "encode params" -> "cli_encparams" [] Part = "encode function" -> "cli_encfn" [] Part = "decode params" -> "cli_decparams"
             [] Part = "decode function" -> "cli_decfn" [] OTHER -> "cli_declog"
Odds(s) == Seqn((Len(s) + 1) \div 2, LAMBDA i : s[2 * i - 1])
Evens(s) == Seqn(Len(s) \div 2, LAMBDA i : s[2 * i])
Argv == << Txt(Part) >> \o mWords
Args == CASE Op = "cli_usage" -> [argv |-> Argv]
          [] Op = "cli_encparams" -> [types |-> Odds(mVals), texts |-> Evens(mVals), mode |-> Mode, argv |-> Argv]
          [] Op = "cli_encfn" -> [file |-> FileAt, want |-> mPos[2], texts |-> mVals, mode |-> Mode, argv |-> Argv]
          [] Op = "cli_decparams" -> [types |-> mVals, data |-> mPos[1], argv |-> Argv]
          [] Op = "cli_decfn" -> [file |-> FileAt, want |-> mPos[2], data |-> mPos[3], argv |-> Argv]
          [] OTHER -> [file |-> FileAt, want |-> mPos[2], topics |-> mVals, data |-> mPos[3], argv |-> Argv]
Replies0 == Expect(Op, Args)
Tell == /\ ~mTold /\ mTold' = TRUE
        \* of the lines that are none, those that are nearly one
        /\ IF IsLine /\ (IF Places < 2 THEN TRUE ELSE mPos[1] = At) THEN TRUE ELSE mWords # << >> /\ ~mBad /\ Len(mWords) <= 3
        /\ Input(Op, Args)
        /\ UNCHANGED << mWords, mPos, mVals, mNeed, mFlags, mBad >>
Next == Grow \/ Tell

\* a line is one printed line per value, or one line of hex
OneAnswer == \E r \in Replies0 : Replies0 = {r}
Printed == LET r == CHOOSE r \in Replies0 : TRUE IN
    r.s = "ok" => /\ r.v[Len(r.v)] = 10
                  /\ (Op \in {"cli_encparams", "cli_encfn"} => ((Len(r.v) % 2) = 1 /\ \A i \in 1..(Len(r.v) - 1) : r.v[i] \in ((48..57) \cup (97..102))))
                  /\ Op = "cli_decparams" => Len(SelectSeq(r.v, LAMBDA c : c = 10)) = (IF mVals = << >> THEN 1 ELSE Len(mVals))
\* what was encoded from literals decodes to the rendering of the values
Roundtrip == Op = "cli_encparams" =>
    LET r == CHOOSE r \in Replies0 : TRUE IN
    r.s = "ok" /\ mVals # << >> =>
       LET d == Expect("cli_decparams", [types |-> Odds(mVals), data |-> SubSeq(r.v, 1, Len(r.v) - 1)])
           x == CHOOSE x \in d : TRUE
       IN x.s = "ok" /\ StartsWith(x.v, mVals[1] \o << 32 >>)
\* a name that two entries have selects none
Ambiguous == ((Op \in {"cli_encfn", "cli_decfn"} /\ mPos[2] = Txt("g")) \/ (Op = "cli_declog" /\ mPos[2] = Txt("f"))) => Replies0 = {Err}
\* another number of values than parameters encodes nothing
Counted == Op = "cli_encfn" /\ Len(mVals) # 1 => Replies0 = {Err}
NoFile == Op \in {"cli_encfn", "cli_decfn", "cli_declog"} /\ mPos[1] # At => Replies0 = {Err}
=============================================================================
