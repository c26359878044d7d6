----------------------------- MODULE MCSession ------------------------------
(***************************************************************************)
(* Histories of a program that loads, clones, uses and drops interfaces    *)
(* under two handles.  The state of Abi is followed next to the plain fact *)
(* which document each handle was loaded from; every history is also run   *)
(* by the implementation.                                                  *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mStore,  \* the state of Abi
          mFrom,   \* handle -> document
          mHist,   \* the calls so far
          mTouched \* the handle the last call may have changed
vars == << mStore, mFrom, mHist, mTouched >>
Part == IOEnv.PART     \* "all": every short history; "long": for simulation
Handles == {1, 2}
MaxCalls == IF Part = "long" THEN 16 ELSE IF Depth > 1 THEN 4 ELSE 3

S(t) == [j |-> "str", t |-> Txt(t)]
A(s) == [j |-> "arr", a |-> s]
O(es) == [j |-> "obj", o |-> es]
K(k, v) == << Txt(k), v >>
B(b) == [j |-> "bool", b |-> b]
P(n, t) == O(<< K("name", S(n)), K("type", S(t)) >>)
I(n, t) == O(<< K("name", S(n)), K("type", S(t)), K("indexed", B(TRUE)) >>)
F(n, ts, us) == O(<< K("type", S("function")), K("name", S(n)), K("inputs", A(ts)), K("outputs", A(us)) >>)
Ev(n, ts, an) == O(<< K("anonymous", B(an)), K("inputs", A(ts)), K("name", S(n)), K("type", S("event")) >>)
C(ts) == O(<< K("type", S("constructor")), K("inputs", A(ts)) >>)
\* two documents with the same names, and one that does not load
Docs == << A(<< F("f", << P("a", "uint256") >>, << P("", "bool") >>), Ev("E", << I("x", "uint8"), P("y", "string") >>, FALSE), C(<< P("c", "bytes3") >>), F("f", << P("s", "string") >>, << >>) >>),
           A(<< F("f", << P("s", "string") >>, << P("", "uint256") >>), Ev("E", << I("x", "string"), P("y", "uint8") >>, TRUE), F("g", << >>, << >>), O(<< K("type", S("receive")) >>) >>),
           A(<< F("f", << P("a", "uint256") >>, << >>), F("f", << P("a", "uint2x") >>, << >>) >>) >>
IfaceOf == TLCEval(MapSeq(LoadReply, Docs))

U1 == [k |-> "uint", w |-> Zeros(31) \o << 1 >>]
Str == [k |-> "string", b |-> Txt("ok")]
Fb == [k |-> "fbytes", b |-> << 1, 2, 3 >>]
fN == Txt("f")
eN == Txt("E")
E1 == TLCEval(IfaceOf[1].v.evs[1])
E2 == TLCEval(IfaceOf[2].v.evs[1])
Log1 == TLCEval(EmitLog(E1, << U1, Str >>))
Log2 == TLCEval(EmitLog(E2, << Str, U1 >>))
Free == [k |-> "any"]
\* the calls of a handle
Uses(h) == << << "s_call", [h |-> h, name |-> fN, ix |-> 1, toks |-> << U1 >>] >>, << "s_call", [h |-> h, name |-> fN, ix |-> 1, toks |-> << Str >>] >>,
              << "s_call", [h |-> h, name |-> fN, ix |-> 2, toks |-> << Str >>] >>, << "s_call", [h |-> h, name |-> Txt("g"), ix |-> 1, toks |-> << >>] >>,
              << "s_out", [h |-> h, name |-> fN, ix |-> 1, data |-> Enc(U1)] >>, << "s_in", [h |-> h, name |-> fN, ix |-> 1, data |-> Encode(<< Str >>)] >>,
              << "s_sig", [h |-> h, name |-> fN, ix |-> 1] >>, << "s_evsig", [h |-> h, name |-> eN, ix |-> 1] >>,
              << "s_filter", [h |-> h, name |-> eN, ix |-> 1, reqs |-> << [k |-> "this", v |-> U1], Free, Free >>] >>,
              << "s_filter", [h |-> h, name |-> eN, ix |-> 1, reqs |-> << [k |-> "oneof", vs |-> << Str >>], Free, Free >>] >>,
              << "s_plog", [h |-> h, name |-> eN, ix |-> 1, topics |-> Log1.topics, data |-> Log1.data] >>,
              << "s_plog", [h |-> h, name |-> eN, ix |-> 1, topics |-> Log2.topics, data |-> Log2.data] >>,
              << "s_ctor", [h |-> h, code |-> << 96 >>, toks |-> << Fb >>] >>, << "s_look", [h |-> h, name |-> fN] >>, << "s_ser", [h |-> h, x |-> 0] >>, << "s_dump", [h |-> h, x |-> 0] >> >>

Init == mStore = NoState /\ mFrom = [h \in {} |-> 0] /\ mHist = << >> /\ mTouched = 0
Do(op, a, touched) ==
    /\ mHist' = Append(mHist, [op |-> op, args |-> a])
    /\ mStore' = After(mStore, op, a, 0)
    /\ mTouched' = touched
Open == DOMAIN mStore
Load == \E h \in Handles, d \in 1..3 :
          /\ mHist = << >> => h = 1 /\ d # 3
          /\ Do("s_load", [h |-> h, doc |-> Docs[d], style |-> 0], h)
          /\ mFrom' = IF d = 3 THEN mFrom ELSE (h :> d) @@ mFrom
Clone == \E h \in Open, g \in Handles : Do("s_clone", [h |-> h, g |-> g], g) /\ mFrom' = (g :> mFrom[h]) @@ mFrom
Drop == \E h \in Open : Do("s_drop", [h |-> h], h) /\ mFrom' = [g \in DOMAIN mFrom \ {h} |-> mFrom[g]]
Use == \E h \in Open : \E i \in 1..16 : Do(Uses(h)[i][1], Uses(h)[i][2], 0) /\ UNCHANGED mFrom
Compare == /\ Open = Handles /\ Do("s_same", [h |-> 1, g |-> 2], 0) /\ UNCHANGED mFrom
\* the last words of a history: everything that is still open
Goodbye == LET os == SelectSeq(<< 1, 2 >>, LAMBDA h : h \in Open)
               lane(k) == Concat(MapSeq(LAMBDA h : MapSeq(LAMBDA u : [id |-> 0, op |-> u[1], args |-> u[2]], LET us == Uses(h) IN SubSeq(us, k, 16) \o SubSeq(us, 1, k - 1)), os))
           IN IF os = << >> THEN << >>
              ELSE IF Part = "long" THEN << [op |-> "par", args |-> [lanes |-> << lane(1), lane(6), lane(11) >>, rounds |-> 5]] >>
              ELSE MapSeq(LAMBDA h : [op |-> "s_dump", args |-> [h |-> h]], os)
Tell == /\ Len(mHist) = MaxCalls /\ Session(mHist \o Goodbye)
        /\ mHist' = Append(mHist, [op |-> "end", args |-> 0]) /\ UNCHANGED << mStore, mFrom >> /\ mTouched' = 0
Next == \/ /\ Len(mHist) < MaxCalls
           /\ Len(mHist) = 2 /\ Part # "long" => Mine(Len(ToString(mHist)) + mTouched)
           /\ Load \/ Clone \/ Drop \/ Use \/ Compare
        \/ Tell
Spec == Init /\ [][Next]_vars

\* what a handle holds is its document, whatever happened before
Faithful == /\ DOMAIN mStore = DOMAIN mFrom
            /\ \A h \in Open : mStore[h].iface = IfaceOf[mFrom[h]].v
\* so every reply is that of an interface that was just loaded
FreshReplies == \A h \in Open : LET fresh == After(NoState, "s_load", [h |-> h, doc |-> Docs[mFrom[h]]], 0) IN
    \A i \in 1..12 : Wanted(mStore, Uses(h)[i][1], Uses(h)[i][2]) = Wanted(fresh, Uses(h)[i][1], Uses(h)[i][2])
\* and a call changes at most its own handle
Kept(h) == /\ (h \in DOMAIN mStore) = (h \in DOMAIN mStore')
           /\ (h \in DOMAIN mStore => mStore'[h] = mStore[h])
Isolated == [][\A h \in Handles : (h = mTouched') \/ Kept(h)]_vars
=============================================================================
