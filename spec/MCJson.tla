------------------------------- MODULE MCJson -------------------------------
(***************************************************************************)
(* Documents grown piece by piece: an entry key by key, a parameter key by *)
(* key, a document entry by entry, every piece from a small menu with      *)
(* repetitions.                                                            *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mDoc,    \* the pieces so far
          mTold
vars == << mDoc, mTold >>
Part == IOEnv.PART       \* "entry", "param", "eparam" or "doc"

S(t) == [j |-> "str", t |-> Txt(t)]
B(b) == [j |-> "bool", b |-> b]
A(s) == [j |-> "arr", a |-> s]
O(es) == [j |-> "obj", o |-> es]
K(k, v) == << Txt(k), v >>
P(n, t) == O(<< K("name", S(n)), K("type", S(t)) >>)
Null == [j |-> "null"]

EntryMenu == << K("type", S("function")), K("type", S("event")), K("name", S("f")), K("inputs", A(<< P("a", "uint256") >>)), K("outputs", A(<< >>)),
                K("anonymous", B(FALSE)), K("constant", B(TRUE)), K("payable", Null), K("stateMutability", S("pure")), K("name", S("g(uint)")) >>
             \o (IF Depth > 1 THEN << K("type", S("constructor")), K("inputs", Null) >> ELSE << >>)
ParamMenu == << K("name", S("a")), K("type", S("uint256")), K("type", S("tuple[]")), K("components", A(<< P("x", "bool"), P("", "bytes3") >>)), K("components", A(<< >>)),
                K("internalType", S("struct T[]")), K("indexed", B(TRUE)), K("other", A(<< Null >>)) >>
             \o (IF Depth > 1 THEN << K("type", S("bogus")), K("indexed", S("x")) >> ELSE << >>)
F(n, ts, us) == O(<< K("type", S("function")), K("name", S(n)), K("inputs", A(ts)), K("outputs", A(us)) >>)
E(n, ts, an) == O(<< K("anonymous", B(an)), K("inputs", A(ts)), K("name", S(n)), K("type", S("event")) >>)
DocMenu == << F("f", << >>, << >>), F("f", << P("a", "bool") >>, << >>), F("g", << >>, << P("", "string[]") >>), E("f", << P("x", "int8") >>, FALSE), E("E", << >>, TRUE), E("E", << P("", "address") >>, FALSE),
              O(<< K("type", S("constructor")), K("inputs", A(<< P("c", "bytes") >>)) >>), O(<< K("inputs", A(<< >>)), K("type", S("constructor")) >>), O(<< K("type", S("fallback")) >>),
              O(<< K("type", S("receive")), K("stateMutability", S("payable")) >>) >>
           \o (IF Depth > 1 THEN << O(<< K("type", S("error")) >>), F("f", << P("b", "bool") >>, << P("", "bool") >>) >> ELSE << >>)
Menu == CASE Part = "entry" -> EntryMenu [] Part = "doc" -> DocMenu [] OTHER -> ParamMenu
MaxLen == (CASE Part = "entry" -> 4 [] Part = "doc" -> 3 [] OTHER -> 4) + (IF Depth > 1 THEN 1 ELSE 0)

\* the document the pieces make
DocOf(ps) == CASE Part = "entry" -> A(<< O(ps) >>)
               [] Part = "doc" -> A(ps)
               [] Part = "eparam" -> A(<< E("E", << O(ps) >>, FALSE) >>)
               [] OTHER -> A(<< F("f", << P("z", "bool"), O(ps) >>, << >>), O(<< K("type", S("constructor")), K("inputs", A(<< O(ps) >>)) >>) >>)
Init == mDoc = << >> /\ mTold = FALSE
Grow == /\ ~mTold /\ Len(mDoc) < MaxLen
        /\ \E i \in 1..Len(Menu) : (Len(mDoc) = 1 => Mine(i)) /\ mDoc' = Append(mDoc, Menu[i])
        /\ UNCHANGED mTold
Names == << Txt("f"), Txt("g"), Txt("E"), Txt("nope") >>
Tell == /\ ~mTold /\ mTold' = TRUE
        /\ Input("load", [doc |-> DocOf(mDoc), style |-> Len(mDoc) % 3, via |-> "reader", names |-> Names])
        /\ LoadReply(DocOf(mDoc)).s = "ok" => Input("ser", [doc |-> DocOf(mDoc), style |-> 0])
        /\ UNCHANGED mDoc
Next == Grow \/ Tell

Reply == LoadReply(DocOf(mDoc))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rotate(s) == IF s = << >> THEN s ELSE Append(Tail(s), s[1])
\* the order of keys does not matter
KeyOrder == Part # "doc" => /\ LoadReply(DocOf(Rev(mDoc))) = Reply
                            /\ LoadReply(DocOf(Rotate(mDoc))) = Reply
\* an unknown key does not matter, wherever it is
Unknown == Part # "doc" => \A i \in 0..Len(mDoc) :
    LoadReply(DocOf(SubSeq(mDoc, 1, i) \o << K("zz", Null) >> \o DropN(mDoc, i))) = Reply
\* a repeated key that is read makes the entry unreadable
Repeats(k) == Len(SelectSeq(mDoc, LAMBDA e : e[1] = Txt(k))) > 1
Repeated == /\ Part = "entry" /\ (Repeats("type") \/ Repeats("name") \/ Repeats("inputs")) => Reply = Err
            /\ Part \in {"param", "eparam"} /\ (Repeats("type") \/ Repeats("name") \/ Repeats("components")) => Reply = Err
\* nothing is lost by writing a document and reading it again
Roundtrip == Reply.s = "ok" => LET r == LoadReply(SerializeDoc(Reply.v)) IN r.s = "ok" /\ Same(r.v, Reply.v) /\ SerializesAs(Reply.v, SerializeDoc(Reply.v))
\* entries of other names may change places
Swaps(i) == [mDoc EXCEPT ![i] = mDoc[i + 1], ![i + 1] = mDoc[i]]
NameOf(e) == LET x == SelectSeq(e.o, LAMBDA p : p[1] = Txt("name")) IN IF x = << >> THEN << >> ELSE x[1][2].t
EntryOrder == Part = "doc" => \A i \in 1..(Len(mDoc) - 1) :
    NameOf(mDoc[i]) # NameOf(mDoc[i + 1]) =>
        LET r == LoadReply(DocOf(Swaps(i))) IN r.s = Reply.s /\ (r.s = "ok" => Same(r.v, Reply.v))
\* every lookup gives what the document says
Lookups == Reply.s = "ok" => \A i \in 1..4 :
    LET all == AllNamed(Reply.v.fns, Names[i])
        one == FirstNamed(Reply.v.fns, Names[i])
    IN IF all.s = "ok" THEN one = Ok(all.v[1]) /\ \A k \in 1..Len(all.v) : all.v[k].name = Names[i] ELSE one = Err
=============================================================================
