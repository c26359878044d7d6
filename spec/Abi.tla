-------------------------------- MODULE Abi ---------------------------------
(***************************************************************************)
(* The library as a system: its state is the interfaces that are loaded    *)
(* (by handle), its transitions the calls of its operations.  An operation *)
(* with name op and arguments a may reply r in state st exactly when       *)
(* Accepts(st, op, a, r); After(st, op, a, r) is the state it leaves.      *)
(***************************************************************************)
EXTENDS Events, Literal, AbiJson
LOCAL R == INSTANCE RunBytes

(***************************************************************************)
(* State: handles -> [iface, sels, tops]; the hashes of the signatures are *)
(* kept with the interface so that they are computed once.                 *)
(***************************************************************************)
NoState == [h \in {} |-> 0]
Kinds(ps) == MapSeq(LAMBDA p : p.kind, ps)
LOCAL Loaded(c) == [iface |-> c,
                    sels |-> MapSeq(LAMBDA f : Selector(f.name, Kinds(f.inputs)), c.fns),
                    tops |-> MapSeq(LAMBDA e : SignatureTopic(e), c.evs)]

\* position of the ix-th overload of a name in a list, 0 if there is none
LOCAL Overload(list, name, ix) ==
    LET at == SelectSeq(Ints(Len(list)), LAMBDA i : list[i].name = name)
    IN IF ix <= Len(at) THEN at[ix] ELSE 0

(***************************************************************************)
(* Replies.                                                                *)
(***************************************************************************)
CallReply(sel, Ts, vs) == IF TypesCheck(vs, Ts) THEN Ok(sel \o Encode(vs)) ELSE Err
CreateReply(Ts, code, vs) == IF TypesCheck(vs, Ts) THEN Ok(code \o Encode(vs)) ELSE Err
FilterAnswer(ev, reqs) ==
    LET f == FilterReply(ev, reqs) IN IF f.s = "ok" THEN Ok([topics |-> f.v, json |-> FilterJson(f.v)]) ELSE Err

\* the content of a value, by the one kind it has
LOCAL Content(v) == IF v.k = "tuple" THEN << >>
                    ELSE << << v.k, CASE v.k \in {"address", "int", "uint"} -> v.w
                                      [] v.k = "bool" -> v.v
                                      [] v.k \in {"array", "farray"} -> v.ts
                                      [] OTHER -> v.b >> >>

\* a lookup answer: the first and all declarations of exactly that name
LOCAL LookupAnswer(c, name) ==
    [fn |-> FirstNamed(c.fns, name), fns |-> AllNamed(c.fns, name),
     ev |-> FirstNamed(c.evs, name), evs |-> AllNamed(c.evs, name)]

LOCAL TopicOfOption(a) ==
    CASE a.from \in {"default", "none"} -> [k |-> "any"]
      [] a.from \in {"some", "one"} -> [k |-> "this", v |-> a.xs[1]]
      [] OTHER -> [k |-> "oneof", vs |-> a.xs]
LOCAL MapTopic(F(_), t) ==
    CASE t.k = "any" -> t [] t.k = "this" -> [t EXCEPT !.v = F(t.v)] [] OTHER -> [t EXCEPT !.vs = MapSeq(F, t.vs)]
LOCAL TopicItems(t) == CASE t.k = "any" -> << >> [] t.k = "this" -> << t.v >> [] OTHER -> t.vs

(***************************************************************************)
(* The command line tool: a printed text or a failure.                     *)
(***************************************************************************)
LOCAL Lines(ls) == Join(ls, << 10 >>) \o << 10 >>
LOCAL ReadLax(t) == LET r == ReadType(t) IN IF r.s = "ok" THEN Ok(r.v) ELSE Err
LOCAL Select(list, Sig(_), want) ==
    LET i == FirstIndex(want, LParen)
        name == IF i = 0 THEN want ELSE SubSeq(want, 1, i - 1)
        l == Named(list, name)
        m == SelectSeq(l, LAMBDA x : Sig(x) = want)
    IN IF i = 0 THEN (IF Len(l) = 1 THEN Ok(l[1]) ELSE Err)
       ELSE IF m = << >> THEN Err ELSE Ok(m[1])
LOCAL FnSig(f) == PrintedSignature(f.name, Kinds(f.inputs), Kinds(f.outputs))
LOCAL EvSig(e) == SignatureText(e.name, Kinds(e.inputs))
LOCAL ReadAll(mode, Ts, texts) ==
    IF Len(Ts) # Len(texts) THEN Err
    ELSE Sequence(Seqn(Len(Ts), LAMBDA i : Tokenize(mode, Ts[i], texts[i])))
LOCAL Hex(b) == Lines(<< HexText(b) >>)
LOCAL TypedLines(Ts, vs) == Lines(Seqn(Len(Ts), LAMBDA i : Utf8Text(WriteType(Ts[i])) \o << 32 >> \o Render(vs[i])))
LOCAL DecodedLines(Ts, data) ==
    {IF r.s = "ok" THEN Ok(TypedLines(Ts, r.v)) ELSE Err : r \in DecodeReplies(Ts, data)}
LOCAL OfFile(a) == IF a.file = << >> THEN Err ELSE LoadReply(a.file[1])
\* spaces in an event signature do not count
LOCAL NoSpace(t) == SelectSeq(t, LAMBDA c : c # 32)
LOCAL CliReplies(op, a) ==
    CASE op = "cli_usage" -> {Err}       \* not a command line of the tool
      [] op = "cli_encparams" ->
            LET Ts == Sequence(MapSeq(ReadLax, a.types)) IN
            IF Ts.s # "ok" THEN {Err}
            ELSE LET vs == ReadAll(a.mode, Ts.v, a.texts)
                 IN {IF vs.s = "ok" THEN Ok(Hex(Encode(vs.v))) ELSE Err}
      [] op = "cli_encfn" ->
            LET c == OfFile(a) IN
            IF c.s # "ok" THEN {Err}
            ELSE LET f == Select(c.v.fns, FnSig, a.want) IN
                 IF f.s # "ok" THEN {Err}
                 ELSE LET Ts == Kinds(f.v.inputs)
                          vs == ReadAll(a.mode, Ts, a.texts)
                      IN {IF vs.s = "ok" THEN Ok(Hex(Selector(f.v.name, Ts) \o Encode(vs.v))) ELSE Err}
      [] op = "cli_decparams" ->
            LET Ts == Sequence(MapSeq(ReadLax, a.types))
                d == HexBytes(a.data)
            IN IF Ts.s # "ok" \/ d.s # "ok" THEN {Err} ELSE DecodedLines(Ts.v, d.v)
      [] op = "cli_decfn" ->
            LET c == OfFile(a)
                d == HexBytes(a.data)
            IN IF c.s # "ok" \/ d.s # "ok" THEN {Err}
               ELSE LET f == Select(c.v.fns, FnSig, a.want) IN
                    IF f.s # "ok" THEN {Err} ELSE DecodedLines(Kinds(f.v.outputs), d.v)
      [] op = "cli_declog" ->
            LET c == OfFile(a)
                d == HexBytes(a.data)
                ts == Sequence(MapSeq(LAMBDA t : HexExactly(IF StartsWith(t, << 48, 120 >>) THEN DropN(t, 2) ELSE t, 32), a.topics))
            IN IF c.s # "ok" \/ d.s # "ok" \/ ts.s # "ok" THEN {Err}
               ELSE LET e == Select(c.v.evs, EvSig, NoSpace(a.want)) IN
                    IF e.s # "ok" THEN {Err}
                    ELSE LET sig == IF e.v.anonymous THEN << >> ELSE SignatureTopic(e.v) IN
                         {IF r.s = "ok"
                          THEN Ok(Lines(MapSeq(LAMBDA p : Utf8Text(p.name) \o << 32 >> \o Render(p.value), r.v)))
                          ELSE Err :
                          r \in ParseReplies(e.v, [topics |-> ts.v, data |-> d.v], sig)}

(***************************************************************************)
(* Operations of no interface.                                             *)
(***************************************************************************)
\* there and back (with bytes behind, as arguments, as results), and there again: whatever the bytes are
LOCAL RoundTrip(a) ==
    Ok([dec |-> a.toks, tail |-> a.toks, again |-> TRUE, fin |-> a.toks, fout |-> a.toks,
        fint |-> a.toks, foutt |-> a.toks])
\* nothing sensible to ask of values that do not fit their types
LOCAL Replies(op, a) ==
    CASE op = "encode" -> {Ok(Encode(a.toks))}
      [] op = "decode" -> DecodeReplies(a.types, a.data)
      [] op = "rt" -> {RoundTrip(a)}
      [] op = "check" -> {Ok([all |-> TypesCheck(a.toks, a.types),
                              each |-> Seqn(Min2(Len(a.toks), Len(a.types)), LAMBDA i : TypeCheck(a.toks[i], a.types[i]))])}
      [] op = "call" -> {IF TypesCheck(a.toks, a.types)
                         THEN CallReply(Selector(a.name, a.types), a.types, a.toks) ELSE Err}
      [] op = "create" -> {CreateReply(a.types, a.code, a.toks)}
      [] op = "fnsig" -> {Ok(PrintedSignature(a.name, a.ins, a.outs))}
      [] op = "evsig" -> {Ok(SignatureTopic(a.ev))}
      [] op = "read" -> ReadTypeReplies(a.text)
      [] op = "write" -> {Ok([full |-> WriteType(a.type), disp |-> WriteType(a.type), abi |-> WriteAbiType(a.type),
                              abifull |-> WriteType(a.type), back |-> Ok(a.type), dyn |-> TypeDynamic(a.type)])}
      [] op = "tok" -> {Tokenize(a.mode, a.type, a.text)}
      \* lists of structs and structs of lists: the denoted value, or refused
      [] op = "tokmixed" -> {Tokenize(a.mode, a.type, a.text), Err}
      [] op = "tokall" -> {Ok(MapSeq(LAMBDA c : Tokenize(c.mode, c.type, a.text), a.cases))}
      [] op = "show" -> {Ok([text |-> Render(a.tok), dyn |-> TokenDynamic(a.tok), into |-> Content(a.tok)])}
      [] op = "retok" -> {Ok(a.tok)}
      [] op = "plog" -> ParseReplies(a.ev, [topics |-> a.topics, data |-> a.data],
                                       IF a.ev.anonymous THEN << >> ELSE SignatureTopic(a.ev))
      [] op = "filter" -> {FilterAnswer(a.ev, a.reqs)}
      [] op = "topic" -> LET t == TopicOfOption(a) IN
                         {Ok([topic |-> t, mapped |-> MapTopic(LAMBDA x : x + 7, t), any |-> t.k = "any",
                              vec |-> TopicItems(t), items |-> TopicItems(t)])}
      [] op = "bigenc" -> {Ok(R!Encode(a.toks))}
      [] op = "bigdec" -> R!DecodeReplies(a.types, a.data)
      [] op = "bigrt" -> {Ok(a.toks)}
      [] OTHER -> CliReplies(op, a)

\* the replies of an operation of no interface, for the models
Expect(op, a) == Replies(op, a)

\* the order of names is not observable, the order of overloads is
LOCAL LoadAccepts(a, r) ==
    LET c == LoadReply(a.doc) IN
    IF c.s # "ok" THEN r = Err
    ELSE /\ r.s = "ok"
         /\ Same(r.v.iface, c.v)
         /\ r.v.iter
         /\ Len(r.v.lookup) = Len(a.names)
         /\ \A i \in 1..Len(a.names) : r.v.lookup[i] = LookupAnswer(c.v, a.names[i])
\* a document is its text with blanks around it: anything else around it, or
\* an end that is missing, makes it no document
LOCAL Blank(bs) == \A i \in 1..Len(bs) : bs[i] \in {9, 10, 13, 32}
LOCAL LoadTextAccepts(a, r) ==
    LET c == LoadReply(a.doc) IN
    IF a.cut = 0 /\ Blank(a.pre) /\ Blank(a.post) /\ c.s = "ok" THEN r.s = "ok" /\ Same(r.v, c.v)
    ELSE r = Err
LOCAL Serialized(c, r) ==
    r.s = "ok" /\ r.v.equal /\ r.v.pretty /\ Same(r.v.again, c) /\ SerializesAs(c, r.v.doc)
\* memory in KiB (at the same time, and altogether), time in milliseconds: what
\* a decoder needs that sets aside a value for every byte there is, copies the
\* data a few times and spends a little on every value there is
LOCAL CostAccepts(a, r) ==
    LET n == IF a.runs THEN R!RLen(a.data) ELSE Len(a.data)
        looks == IF a.runs THEN R!Looks(a.types, a.data) ELSE Looks(a.types, a.data)
    IN /\ r.s = "ok"
       /\ r.v.kb <= 384 + n \div 16 + looks \div 3
       /\ r.v.tot <= 1024 + n \div 8 + looks
       /\ r.v.ms <= 500 + n \div 20000 + looks \div 100

LOCAL SessionReplies(s, op, a) ==
    LET c == s.iface
        f == Overload(c.fns, a.name, a.ix)
        e == Overload(c.evs, a.name, a.ix)
    IN CASE op = "s_call" -> {IF f = 0 THEN Err ELSE CallReply(s.sels[f], Kinds(c.fns[f].inputs), a.toks)}
         [] op = "s_in" -> IF f = 0 THEN {Err} ELSE DecodeReplies(Kinds(c.fns[f].inputs), a.data)
         [] op = "s_out" -> IF f = 0 THEN {Err} ELSE DecodeReplies(Kinds(c.fns[f].outputs), a.data)
         [] op = "s_sig" -> {IF f = 0 THEN Err
                             ELSE Ok(PrintedSignature(c.fns[f].name, Kinds(c.fns[f].inputs), Kinds(c.fns[f].outputs)))}
         [] op = "s_evsig" -> {IF e = 0 THEN Err ELSE Ok(s.tops[e])}
         [] op = "s_filter" -> {IF e = 0 THEN Err ELSE FilterAnswer(c.evs[e], a.reqs)}
         [] op = "s_plog" -> IF e = 0 THEN {Err}
                             ELSE ParseReplies(c.evs[e], [topics |-> a.topics, data |-> a.data], s.tops[e])

SessionOps == {"s_call", "s_in", "s_out", "s_sig", "s_evsig", "s_filter", "s_plog"}

Accepts(st, op, a, r) ==
    /\ r.s \in {"ok", "err"}
    /\ CASE op = "load" -> LoadAccepts(a, r)
         [] op = "loadtext" -> LoadTextAccepts(a, r)
         [] op = "ser" -> LET c == LoadReply(a.doc) IN IF c.s = "ok" THEN Serialized(c.v, r) ELSE r = Err
         [] op = "cost" -> CostAccepts(a, r)
         [] op = "s_load" -> LET c == LoadReply(a.doc) IN IF c.s = "ok" THEN r.s = "ok" /\ Same(r.v, c.v) ELSE r = Err
         [] op \in {"s_clone", "s_dump"} -> r.s = "ok" /\ Same(r.v, st[a.h].iface)
         [] op = "s_drop" -> r.s = "ok"
         [] op = "s_same" -> r = Ok(Same(st[a.h].iface, st[a.g].iface))
         [] op = "s_look" -> r = Ok(LookupAnswer(st[a.h].iface, a.name))
         [] op = "s_ser" -> Serialized(st[a.h].iface, r)
         [] op = "s_ctor" -> LET k == st[a.h].iface.ctor IN
                             r = IF k = << >> THEN Err ELSE CreateReply(Kinds(k[1].inputs), a.code, a.toks)
         [] op \in SessionOps -> r \in SessionReplies(st[a.h], op, a)
         [] OTHER -> r \in Replies(op, a)

\* only loading, cloning and dropping change the state, and only by their handle
After(st, op, a, r) ==
    CASE op = "s_load" -> LET c == LoadReply(a.doc) IN
                          IF c.s = "ok" THEN (a.h :> Loaded(c.v)) @@ st ELSE st
      [] op = "s_clone" -> (a.g :> st[a.h]) @@ st
      [] op = "s_drop" -> [h \in DOMAIN st \ {a.h} |-> st[h]]
      [] OTHER -> st

(***************************************************************************)
(* What the replies may be, for reports.                                   *)
(***************************************************************************)
Wanted(st, op, a) ==
    CASE op = "load" -> LoadReply(a.doc)
      [] op \in {"ser", "s_load", "loadtext"} -> LoadReply(a.doc)
      [] op = "cost" -> "bounded cost"
      [] op \in {"s_clone", "s_dump", "s_ser"} -> st[a.h].iface
      [] op \in {"s_drop", "s_same", "s_ctor"} -> op
      [] op = "s_look" -> LookupAnswer(st[a.h].iface, a.name)
      [] op \in SessionOps -> SessionReplies(st[a.h], op, a)
      [] OTHER -> Replies(op, a)
=============================================================================
