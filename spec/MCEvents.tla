------------------------------ MODULE MCEvents ------------------------------
(***************************************************************************)
(* Events declared parameter by parameter, logs emitted for them by the    *)
(* chain and possibly damaged on the way, parsed and filtered.             *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mPhase,  \* "declare", "emitted", "damaged"
          mEv,     \* the event
          mSig,    \* its signature topic, once declared
          mVals,   \* the values of the log
          mLog,    \* the log as it arrives
          mHow     \* what happened to it
vars == << mPhase, mEv, mSig, mVals, mLog, mHow >>

Part == IOEnv.PART      \* "parse" or "filter": what is looked at
Kinds3 == << tU, tS, tT, ArrOf(tU) >> \o (IF Depth > 1 THEN << tF(3), Tup(<< tU, tB >>) >> ELSE << >>)
MaxParams == (IF Depth > 1 THEN 4 ELSE 3) - (IF Part = "filter" THEN 1 ELSE 0)
\* two values of each kind, and their topics, computed once
Two(T) == LET vs == Values(T) IN IF T.k = "fbytes" THEN << vs[1], [vs[1] EXCEPT !.b = [i \in 1..T.n |-> 255]] >> ELSE << vs[1], vs[Len(vs)] >>
Vals2 == TLCEval(MapSeq(Two, Kinds3))
Topics2 == TLCEval(MapSeq(LAMBDA vs : MapSeq(TopicOf, vs), Vals2))
KindAt(T) == CHOOSE i \in 1..Len(Kinds3) : Kinds3[i] = T
PName(i) == IF i = 2 THEN << >> ELSE << 112, 48 + i >>      \* p1, a nameless one, p3, ...

NoLog == [topics |-> << >>, data |-> << >>]
Init == /\ mPhase = "declare" /\ mSig = << >> /\ mVals = << >> /\ mLog = NoLog /\ mHow = "whole"
        /\ \E anon \in BOOLEAN : mEv = [name |-> Txt("Ev"), inputs |-> << >>, anonymous |-> anon]
NIndexed(ev) == Len(Indexed(ev))
Declare == /\ mPhase = "declare" /\ Len(mEv.inputs) < MaxParams
           /\ \E i \in 1..Len(Kinds3) : \E ix \in BOOLEAN :
                /\ Len(mEv.inputs) = 1 => Mine(2 * i + (IF ix THEN 1 ELSE 0))
                /\ ix => NIndexed(mEv) < (IF mEv.anonymous THEN 4 ELSE 3)
                /\ mEv' = [mEv EXCEPT !.inputs = Append(mEv.inputs, [name |-> PName(Len(mEv.inputs) + 1), kind |-> Kinds3[i], indexed |-> ix])]
           /\ UNCHANGED << mPhase, mSig, mVals, mLog, mHow >>
\* the log of the values chosen by c
Emitted(ev, sig, c) ==
    LET n == Len(ev.inputs)
        at(i) == KindAt(ev.inputs[i].kind)
        ix == SelectSeq(Ints(n), LAMBDA i : ev.inputs[i].indexed)
        pl == SelectSeq(Ints(n), LAMBDA i : ~ev.inputs[i].indexed)
    IN [topics |-> (IF ev.anonymous THEN << >> ELSE << sig >>) \o MapSeq(LAMBDA i : Topics2[at(i)][c[i]], ix),
        data |-> Encode(MapSeq(LAMBDA i : Vals2[at(i)][c[i]], pl))]
Emit == /\ mPhase = "declare"
        /\ mSig' = IF mEv.anonymous THEN << >> ELSE SignatureTopic(mEv)
        /\ \E c \in [1..Len(mEv.inputs) -> {1, 2}] :
              /\ Len(mEv.inputs) > 2 /\ Depth = 1 => \A i \in 1..Len(mEv.inputs) : c[i] = c[1] \/ i = 2
              /\ mVals' = Seqn(Len(mEv.inputs), LAMBDA i : Vals2[KindAt(mEv.inputs[i].kind)][c[i]])
              /\ mLog' = Emitted(mEv, mSig', c)
        /\ mPhase' = "emitted" /\ UNCHANGED << mEv, mHow >>

\* what can happen to a log: [topics, data] or nothing
Flip(w) == [w EXCEPT ![32] = (w[32] + 1) % 256]
Damages == << "topic lost", "first topic lost", "topic doubled", "first topic changed", "topics reversed", "data cut", "data extended", "data lost" >>
Possible(l, how) == CASE how \in {"data cut", "data lost"} -> l.data # << >>
                      [] how = "data extended" -> TRUE
                      [] how = "topics reversed" -> Len(l.topics) > 1
                      [] OTHER -> l.topics # << >>
Damaged(l, how) ==
    LET t == l.topics
        n == Len(t)
    IN CASE how = "topic lost" -> [l EXCEPT !.topics = SubSeq(t, 1, n - 1)]
         [] how = "first topic lost" -> [l EXCEPT !.topics = DropN(t, 1)]
         [] how = "topic doubled" -> [l EXCEPT !.topics = Append(t, t[n])]
         [] how = "first topic changed" -> [l EXCEPT !.topics = << Flip(t[1]) >> \o DropN(t, 1)]
         [] how = "topics reversed" -> [l EXCEPT !.topics = [i \in 1..n |-> t[n + 1 - i]]]
         [] how = "data cut" -> [l EXCEPT !.data = SubSeq(l.data, 1, Len(l.data) - 32)]
         [] how = "data extended" -> [l EXCEPT !.data = l.data \o Zeros(32)]
         [] OTHER -> [l EXCEPT !.data = << >>]
Damage == /\ mPhase = "emitted" /\ Part = "parse"
          /\ \E i \in 1..8 : Possible(mLog, Damages[i]) /\ mLog' = Damaged(mLog, Damages[i]) /\ mHow' = Damages[i]
          /\ mPhase' = "damaged" /\ UNCHANGED << mEv, mSig, mVals >>
Tell == /\ mPhase \in {"emitted", "damaged"} /\ Part = "parse"
        /\ Vector("plog", [ev |-> mEv, topics |-> mLog.topics, data |-> mLog.data], ParseReplies(mEv, mLog, mSig))
        /\ mPhase' = "told" /\ mEv' = [name |-> << >>, inputs |-> << >>, anonymous |-> FALSE] /\ mSig' = << >> /\ mVals' = << >> /\ mLog' = NoLog /\ mHow' = "told"

\* filters
Position(i) == (SelectSeq(Ints(Len(mEv.inputs)), LAMBDA j : mEv.inputs[j].indexed))[i]
Requests(i) == IF i > NIndexed(mEv) THEN << [k |-> "any"] >>
               ELSE LET vs == Vals2[KindAt(Indexed(mEv)[i].kind)]
                    IN << [k |-> "any"], [k |-> "this", v |-> vs[1]], [k |-> "oneof", vs |-> << vs[2] >>] >>
                       \o (IF Depth > 1 \/ NIndexed(mEv) = 1 THEN << [k |-> "oneof", vs |-> << >>], [k |-> "oneof", vs |-> vs] >> ELSE << >>)
AskFilter == /\ mPhase = "emitted" /\ Part = "filter"
             /\ \A i \in 1..Len(mVals) : mVals[i] = Vals2[KindAt(mEv.inputs[i].kind)][1]
             /\ \E a \in 1..Len(Requests(1)), b \in 1..Len(Requests(2)), c \in 1..Len(Requests(3)) :
                  LET rs == << Requests(1)[a], Requests(2)[b], Requests(3)[c] >>
                      f == FilterWith(mEv, rs, mSig)
                  IN Vector("filter", [ev |-> mEv, reqs |-> rs], {Ok([topics |-> f.v, json |-> FilterJson(f.v)])})
             /\ mPhase' = "told" /\ mEv' = [name |-> << >>, inputs |-> << >>, anonymous |-> FALSE] /\ mSig' = << >> /\ mVals' = << >> /\ mLog' = NoLog /\ mHow' = "told"
Next == Declare \/ Emit \/ Damage \/ Tell \/ AskFilter

Parsed == ParseReplies(mEv, mLog, mSig)
\* what the receiver of a log expects to see
Expected == Ok(Seqn(Len(mVals), LAMBDA i :
               [name |-> mEv.inputs[i].name,
                value |-> IF mEv.inputs[i].indexed /\ Hashed(mEv.inputs[i].kind)
                          THEN [k |-> "fbytes", b |-> Topics2[KindAt(mEv.inputs[i].kind)][CHOOSE j \in {1, 2} : Vals2[KindAt(mEv.inputs[i].kind)][j] = mVals[i]]]
                          ELSE mVals[i]]))
ParseBack == mHow \in {"whole", "data extended"} /\ mPhase # "declare" /\ mPhase # "told" =>
             (mHow = "data extended" /\ mLog.data = Zeros(32)) \/ Parsed = {Expected}
RefusesForeign == mHow \in {"topic lost", "topic doubled", "first topic lost"} \/ (mHow = "first topic changed" /\ ~mEv.anonymous) => Parsed = {Err}
\* cutting the data never yields other values
CutData == mHow \in {"data cut", "data lost"} => Parsed \subseteq {Err, Expected}

Wants(r, v) == CASE r.k = "any" -> TRUE [] r.k = "this" -> r.v = v [] OTHER -> \E j \in 1..Len(r.vs) : r.vs[j] = v
FilterExact ==
    mPhase = "emitted" /\ Part = "filter" =>
        \A a \in 1..Len(Requests(1)), b \in 1..Len(Requests(2)), c \in 1..Len(Requests(3)) :
           LET rs == << Requests(1)[a], Requests(2)[b], Requests(3)[c] >>
               f == FilterWith(mEv, rs, mSig)
           IN /\ f.s = "ok"
              /\ Admits(f.v, mLog) = \A i \in 1..Min2(3, NIndexed(mEv)) : Wants(rs[i], mVals[Position(i)])
=============================================================================
