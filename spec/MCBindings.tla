----------------------------- MODULE MCBindings -----------------------------
(***************************************************************************)
(* What the code generator generates for a declaration: functions over     *)
(* values of the host language, which turn them into values of the ABI,    *)
(* call the run-time interface and turn its answers back.  A declaration   *)
(* is chosen, bindings are generated for it, a program uses them.          *)
(***************************************************************************)
EXTENDS Universe
VARIABLES mPhase,  \* "start", "declared", "told"
          mDecl,   \* [k |-> "fn", name, ins, outs] or [k |-> "ctor", ins] or [k |-> "ev", ev]
          mHash    \* its selector or signature topic
vars == << mPhase, mDecl, mHash >>

Ts == << tU, tS, tT, tF(4), ArrOf(tU), FArr(tS, 2), tF(32), tB, FArr(tU, 2), ArrOf(tB) >>
      \o (IF Depth > 1 THEN << tA, tI, ArrOf(ArrOf(tT)), ArrOf(FArr(tU, 2)), FArr(FArr(tI, 2), 1), FArr(ArrOf(tB), 2), ArrOf(tF(32)), ArrOf(tF(4)) >> ELSE << >>)
\* what the generator supports as an argument and as a topic
RECURSIVE HasFixed(_)
HasFixed(T) == T.k = "farray" \/ (T.k = "array" /\ HasFixed(T.t))
ArgOk(T) == CASE T.k = "array" -> ~HasFixed(T.t)
              [] T.k = "farray" -> T.t.k \notin {"array", "farray", "fbytes"}
              [] OTHER -> TRUE
TopicOk(T) == ~HasFixed(T)
NEv == IF Depth > 1 THEN Len(Ts) ELSE 6

(***************************************************************************)
(* Host values: numbers, addresses and byte strings are their bytes, a     *)
(* list is a list.  The type says which value of the ABI is meant.         *)
(***************************************************************************)
RECURSIVE ToTok(_, _)
ToTok(T, h) ==
    CASE T.k \in {"address", "int", "uint"} -> [k |-> T.k, w |-> h]
      [] T.k = "bool" -> [k |-> "bool", v |-> h]
      [] T.k \in {"fbytes", "bytes", "string"} -> [k |-> T.k, b |-> h]
      [] OTHER -> [k |-> T.k, ts |-> MapSeq(LAMBDA x : ToTok(T.t, x), h)]
RECURSIVE FromTok(_, _)
FromTok(T, v) ==
    CASE T.k \in {"address", "int", "uint"} -> v.w
      [] T.k = "bool" -> v.v
      [] T.k \in {"fbytes", "bytes", "string"} -> v.b
      [] OTHER -> MapSeq(LAMBDA x : FromTok(T.t, x), v.ts)
\* two host values of a type
Hosts(T) == LET vs == Values(T) IN << FromTok(T, vs[1]), FromTok(T, vs[Len(vs)]) >>
ToToks(Us, hs) == Seqn(Len(Us), LAMBDA i : ToTok(Us[i], hs[i]))

(***************************************************************************)
(* The generated functions.  "panic" is what none of them may come to.     *)
(***************************************************************************)
GenCall(d, sel, hs) == LET r == CallReply(sel, d.ins, ToToks(d.ins, hs)) IN IF r.s = "ok" THEN r ELSE [s |-> "panic"]
GenDecode(d, data) == {IF r.s = "ok" THEN Ok(Seqn(Len(d.outs), LAMBDA i : FromTok(d.outs[i], r.v[i]))) ELSE Err : r \in DecodeReplies(d.outs, data)}
LogType(p) == IF p.indexed /\ Hashed(p.kind) THEN tF(32) ELSE p.kind
GenParse(ev, log, sig) == {IF r.s = "ok" THEN Ok(Seqn(Len(ev.inputs), LAMBDA i : FromTok(LogType(ev.inputs[i]), r.v[i].value))) ELSE Err : r \in ParseReplies(ev, log, sig)}
\* a request per indexed param, the first three of which have a place
GenFilter(ev, reqs, sig) ==
    LET tok(i) == LET T == Indexed(ev)[i].kind
                      q == reqs[i]
                  IN CASE q.k = "any" -> q [] q.k = "this" -> [q EXCEPT !.v = ToTok(T, q.v)] [] OTHER -> [q EXCEPT !.vs = MapSeq(LAMBDA h : ToTok(T, h), q.vs)]
        r == FilterWith(ev, Seqn(3, LAMBDA i : IF i <= Len(reqs) THEN tok(i) ELSE [k |-> "any"]), sig)
    IN IF r.s = "ok" THEN r ELSE [s |-> "panic"]

(***************************************************************************)
(* Declarations.                                                           *)
(***************************************************************************)
Letters(is) == MapSeq(LAMBDA i : 96 + i, is)
FnOf(is, os) == [k |-> "fn", name |-> << 102 >> \o Letters(is) \o << 122 >> \o Letters(os), ins |-> MapSeq(LAMBDA i : Ts[i], is), outs |-> MapSeq(LAMBDA i : Ts[i], os)]
CtorOf(is) == [k |-> "ctor", ins |-> MapSeq(LAMBDA i : Ts[i], is)]
EvOf(is, ixs, anon) ==
    [k |-> "ev",
     ev |-> [name |-> << 69 >> \o Concat(Seqn(Len(is), LAMBDA i : << 96 + is[i] >> \o (IF ixs[i] THEN << 120 >> ELSE << >>))) \o << 122 >> \o (IF anon THEN << 119 >> ELSE << >>),
             inputs |-> Seqn(Len(is), LAMBDA i : [name |-> IF i = 2 THEN << >> ELSE << 112, 48 + i >>, kind |-> Ts[is[i]], indexed |-> ixs[i]]),
             anonymous |-> anon]]
N == Len(Ts)
Init == mPhase = "start" /\ mDecl = [k |-> "none"] /\ mHash = << >>
Declare(d, h) == mPhase' = "declared" /\ mDecl' = d /\ mHash' = h
DeclareFn == /\ mPhase = "start"
             /\ \E i \in 0..N, j \in 0..N :
                  /\ Mine(i + 3 * j) /\ (IF i = 0 THEN j # 0 ELSE ArgOk(Ts[i]))
                  /\ LET is == IF i = 0 THEN << >> ELSE IF j = 0 THEN << i >> ELSE IF ArgOk(Ts[j]) THEN << i, j >> ELSE << i >>
                         os == IF j = 0 THEN << >> ELSE IF i = 0 THEN << j >> ELSE << j, i >>
                         d == FnOf(is, os)
                     IN Declare(d, Selector(d.name, d.ins))
DeclareCtor == /\ mPhase = "start"
               /\ \E i \in 0..N : Mine(i) /\ (IF i = 0 THEN TRUE ELSE ArgOk(Ts[i])) /\ Declare(CtorOf(IF i = 0 THEN << >> ELSE << i, 1 + (i % 5) >>), << >>)
DeclareEv == /\ mPhase = "start"
             /\ \E i \in 1..NEv, j \in 0..NEv, ix \in BOOLEAN, jx \in BOOLEAN, anon \in BOOLEAN :
                  /\ Mine(i + j) /\ (IF ix THEN TopicOk(Ts[i]) ELSE TRUE) /\ (IF jx THEN (IF j = 0 THEN FALSE ELSE TopicOk(Ts[j])) ELSE TRUE)
                  /\ (IF Depth = 1 THEN anon = (((i + j) % 3) = 0) ELSE TRUE)
                  /\ LET d == EvOf(IF j = 0 THEN << i >> ELSE << i, j >>, IF j = 0 THEN << ix >> ELSE << ix, jx >>, anon)
                     IN Declare(d, IF anon THEN << >> ELSE SignatureTopic(d.ev))

(***************************************************************************)
(* Programs.                                                               *)
(***************************************************************************)
First(Us) == MapSeq(LAMBDA T : Hosts(T)[1], Us)
Last(Us) == MapSeq(LAMBDA T : Hosts(T)[2], Us)
Cross(Us) == Seqn(Len(Us), LAMBDA i : Hosts(Us[i])[1 + (i % 2)])
Sets(Us) == IF Us = << >> THEN << << >> >> ELSE << First(Us), Last(Us), Cross(Us) >>
Datas(os) == Concat(MapSeq(LAMBDA hs : LET b == Encode(ToToks(os, hs)) IN << b, b \o Zeros(32), SubSeq(b, 1, Len(b) - Min2(32, Len(b))) >>, Sets(os))) \o << << >>, << 1 >> >>
EvTs == MapSeq(LAMBDA p : p.kind, mDecl.ev.inputs)
IxTs == MapSeq(LAMBDA p : p.kind, Indexed(mDecl.ev))
\* the log of host values
LogOf(hs) ==
    LET ev == mDecl.ev
        vs == ToToks(EvTs, hs)
        ix == SelectSeq(Ints(Len(vs)), LAMBDA i : ev.inputs[i].indexed)
        pl == SelectSeq(Ints(Len(vs)), LAMBDA i : ~ev.inputs[i].indexed)
    IN [topics |-> (IF ev.anonymous THEN << >> ELSE << mHash >>) \o MapSeq(LAMBDA i : TopicOf(vs[i]), ix), data |-> Encode(MapSeq(LAMBDA i : vs[i], pl))]
Harmed(l) ==
    LET n == Len(l.topics) IN
    << [l EXCEPT !.topics = Append(@, Zeros(32))], [l EXCEPT !.data = SubSeq(@, 1, Len(@) - Min2(32, Len(@)))], [l EXCEPT !.data = @ \o << 1, 2 >>] >>
    \o (IF n = 0 THEN << >> ELSE << [l EXCEPT !.topics = DropN(@, 1)], [l EXCEPT !.topics = [@ EXCEPT ![1] = [@ EXCEPT ![32] = (@ + 1) % 256]]], [l EXCEPT !.topics = [@ EXCEPT ![n] = [i \in 1..32 |-> 255]]] >>)
Logs == LET ls == MapSeq(LogOf, Sets(EvTs)) IN ls \o Harmed(ls[1])
Asks(T) == LET hs == Hosts(T) IN << [k |-> "any"], [k |-> "this", v |-> hs[1]], [k |-> "oneof", vs |-> hs], [k |-> "oneof", vs |-> << hs[2] >>] >>
Requests == Choices(MapSeq(Asks, IxTs))
TokReq(q, T) == CASE q.k = "any" -> q [] q.k = "this" -> [q EXCEPT !.v = ToTok(T, q.v)] [] OTHER -> [q EXCEPT !.vs = MapSeq(LAMBDA h : ToTok(T, h), q.vs)]

Each(s, F(_, _)) == \A i \in 1..Len(s) : F(i, s[i])
Program ==
    LET d == mDecl IN
    CASE d.k = "fn" ->
           /\ Each(Sets(d.ins), LAMBDA i, hs : Input("call", [decl |-> d, name |-> d.name, types |-> d.ins, outs |-> d.outs, toks |-> ToToks(d.ins, hs), via |-> IF i % 2 = 1 THEN "enc" ELSE "call"]))
           /\ Each(Datas(d.outs), LAMBDA i, b : Input("decode", [decl |-> d, types |-> d.outs, data |-> b, toks |-> ToToks(d.ins, First(d.ins)), via |-> IF i % 3 = 1 THEN "call" ELSE "out"]))
      [] d.k = "ctor" ->
           Each(Sets(d.ins), LAMBDA i, hs : Input("create", [decl |-> d, types |-> d.ins, code |-> [j \in 1..(i - 1) |-> 96 + j], toks |-> ToToks(d.ins, hs)]))
      [] OTHER ->
           /\ Input("evsig", [decl |-> d, ev |-> d.ev])
           /\ Each(Requests, LAMBDA i, rs : Input("filter", [decl |-> d, ev |-> d.ev, via |-> "args", reqs |-> Seqn(3, LAMBDA p : IF p <= Len(rs) THEN TokReq(rs[p], IxTs[p]) ELSE [k |-> "any"])]))
           /\ Input("filter", [decl |-> d, ev |-> d.ev, via |-> "wild", reqs |-> << [k |-> "any"], [k |-> "any"], [k |-> "any"] >>])
           /\ Each(Logs, LAMBDA i, l : Input("plog", [decl |-> d, ev |-> d.ev, topics |-> l.topics, data |-> l.data]))
Use == mPhase = "declared" /\ Program /\ mPhase' = "told" /\ mDecl' = [k |-> "none"] /\ mHash' = << >>
Next == DeclareFn \/ DeclareCtor \/ DeclareEv \/ Use

(***************************************************************************)
(* The generated functions agree with the run-time interface and with the  *)
(* program's own values, and no `expect` in them can fail.                 *)
(***************************************************************************)
Declared == mPhase = "declared"
Faithful == Declared => \A i \in 1..N : \A j \in {1, 2} : LET h == Hosts(Ts[i])[j] IN FromTok(Ts[i], ToTok(Ts[i], h)) = h /\ TypeCheck(ToTok(Ts[i], h), Ts[i])
Calls == Declared /\ mDecl.k = "fn" =>
         /\ Each(Sets(mDecl.ins), LAMBDA i, hs : GenCall(mDecl, mHash, hs) = Ok(mHash \o Encode(ToToks(mDecl.ins, hs))))
         /\ Each(Sets(mDecl.outs), LAMBDA i, hs : GenDecode(mDecl, Encode(ToToks(mDecl.outs, hs))) = {Ok(hs)})
Parses == Declared /\ mDecl.k = "ev" =>
          Each(Sets(EvTs), LAMBDA i, hs :
            GenParse(mDecl.ev, LogOf(hs), mHash) =
            {Ok(Seqn(Len(hs), LAMBDA j : LET p == mDecl.ev.inputs[j] IN IF LogType(p) = p.kind THEN hs[j] ELSE TopicOf(ToTok(p.kind, hs[j]))))})
RECURSIVE Place(_, _)
Place(i, n) == IF mDecl.ev.inputs[i].indexed THEN (IF n = 1 THEN i ELSE Place(i + 1, n - 1)) ELSE Place(i + 1, n)
Wants(q, h) == CASE q.k = "any" -> TRUE [] q.k = "this" -> q.v = h [] OTHER -> \E j \in 1..Len(q.vs) : q.vs[j] = h
Filters == Declared /\ mDecl.k = "ev" =>
           Each(Requests, LAMBDA i, rs :
             LET f == GenFilter(mDecl.ev, rs, mHash)
             IN f.s = "ok" /\ Each(Sets(EvTs), LAMBDA j, hs : Admits(f.v, LogOf(hs)) = \A p \in 1..Len(rs) : Wants(rs[p], hs[Place(1, p)])))
=============================================================================
