------------------------------ MODULE AbiJson -------------------------------
(***************************************************************************)
(* JSON ABI documents.  A document is a tree                               *)
(*   [j |-> "null"], [j |-> "bool", b], [j |-> "num", n |-> text],         *)
(*   [j |-> "str", t |-> text], [j |-> "arr", a |-> << ... >>],            *)
(*   [j |-> "obj", o |-> << << key, tree >>, ... >>]                       *)
(* that keeps the order of keys and repeated keys.  An interface is        *)
(*   [ctor |-> << >> or << [inputs] >>, fns |-> functions in document      *)
(*    order, evs |-> events in document order, fallback, receive].         *)
(***************************************************************************)
EXTENDS TypeText

LOCAL kName == Txt("name")
LOCAL kType == Txt("type")
LOCAL kInputs == Txt("inputs")
LOCAL kOutputs == Txt("outputs")
LOCAL kConstant == Txt("constant")
LOCAL kMutability == Txt("stateMutability")
LOCAL kAnonymous == Txt("anonymous")
LOCAL kIndexed == Txt("indexed")
LOCAL kComponents == Txt("components")
LOCAL kInternal == Txt("internalType")
LOCAL vFunction == Txt("function")
LOCAL vEvent == Txt("event")
LOCAL vConstructor == Txt("constructor")
LOCAL vFallback == Txt("fallback")
LOCAL vReceive == Txt("receive")
Mutabilities == {Txt("pure"), Txt("view"), Txt("nonpayable"), Txt("payable")}
LOCAL vNonPayable == Txt("nonpayable")

\* the values of a key, in order
LOCAL Of(o, key) == MapSeq(LAMBDA e : e[2], SelectSeq(o.o, LAMBDA e : e[1] = key))
\* at most one value, read by R; absent: dflt
LOCAL Field(o, key, R(_), dflt) ==
    LET vs == Of(o, key) IN
    IF Len(vs) > 1 THEN Err ELSE IF vs = << >> THEN dflt ELSE R(vs[1])
LOCAL RText(x) == IF x.j = "str" THEN Ok(x.t) ELSE Err
LOCAL RBool(x) == IF x.j = "bool" THEN Ok(x.b) ELSE Err
LOCAL RMut(x) == IF x.j = "str" /\ x.t \in Mutabilities THEN Ok(x.t) ELSE Err
LOCAL RType(x) == IF x.j # "str" THEN Err
                  ELSE LET r == ReadType(x.t) IN IF r.s = "ok" THEN Ok(r.v) ELSE Err
LOCAL RList(x, R(_)) == IF x.j # "arr" THEN Err ELSE Sequence(MapSeq(R, x.a))
\* a name ends before an opening parenthesis
Sanitize(t) == LET i == FirstIndex(t, LParen) IN IF i = 0 THEN t ELSE SubSeq(t, 1, i - 1)
LOCAL RName(x) == IF x.j = "str" THEN Ok(Sanitize(x.t)) ELSE Err

RECURSIVE HasTuple(_)
HasTuple(T) == IF T.k \in {"array", "farray"} THEN HasTuple(T.t) ELSE T.k = "tuple"
\* the members of the innermost tuple of arrays of tuples
RECURSIVE InnerTuple(_)
InnerTuple(T) == IF T.k \in {"array", "farray"} THEN InnerTuple(T.t) ELSE T.ts
RECURSIVE ExtendTuple(_, _)
ExtendTuple(T, ms) ==
    IF T.k \in {"array", "farray"} THEN [T EXCEPT !.t = ExtendTuple(T.t, ms)]
    ELSE [T EXCEPT !.ts = T.ts \o ms]

\* type and components together
RECURSIVE RMember(_)
LOCAL RKind(o) ==
    LET t == Field(o, kType, RType, Err)
        cs == Field(o, kComponents, LAMBDA x : RList(x, RMember), Ok(<< >>))
    IN IF t.s # "ok" \/ cs.s # "ok" THEN Err
       ELSE IF ~HasTuple(t.v) THEN t
       ELSE IF Of(o, kComponents) = << >> THEN Err
       ELSE Ok(ExtendTuple(t.v, cs.v))
\* a struct member: only its type matters
RMember(x) ==
    IF x.j # "obj" THEN Err
    ELSE LET k == RKind(x)
             n == Field(x, kName, RText, Ok(<< >>))
             it == Field(x, kInternal, RText, Ok(<< >>))
         IN IF n.s = "ok" /\ it.s = "ok" THEN k ELSE Err
LOCAL RParam(x) ==
    IF x.j # "obj" THEN Err
    ELSE LET k == RKind(x)
             n == Field(x, kName, RText, Err)
             it == Field(x, kInternal, LAMBDA y : IF y.j = "str" THEN Ok(<< y.t >>) ELSE Err, Ok(<< >>))
         IN IF k.s = "ok" /\ n.s = "ok" /\ it.s = "ok" THEN Ok([name |-> n.v, kind |-> k.v, internal |-> it.v]) ELSE Err
LOCAL REventParam(x) ==
    IF x.j # "obj" THEN Err
    ELSE LET k == RKind(x)
             n == Field(x, kName, RText, Err)
             ix == Field(x, kIndexed, RBool, Ok(FALSE))
         IN IF k.s = "ok" /\ n.s = "ok" /\ ix.s = "ok" THEN Ok([name |-> n.v, kind |-> k.v, indexed |-> ix.v]) ELSE Err

LOCAL RFunction(o) ==
    LET n == Field(o, kName, RName, Err)
        i == Field(o, kInputs, LAMBDA x : RList(x, RParam), Err)
        u == Field(o, kOutputs, LAMBDA x : RList(x, RParam), Err)
        c == Field(o, kConstant, RBool, Ok(FALSE))
        m == Field(o, kMutability, RMut, Ok(vNonPayable))
    IN IF AllOk(<< n, i, u, c, m >>)
       THEN Ok([name |-> n.v, inputs |-> i.v, outputs |-> u.v, constant |-> c.v, mutability |-> m.v]) ELSE Err
LOCAL REvent(o) ==
    LET n == Field(o, kName, RName, Err)
        i == Field(o, kInputs, LAMBDA x : RList(x, REventParam), Err)
        a == Field(o, kAnonymous, RBool, Err)
    IN IF AllOk(<< n, i, a >>) THEN Ok([name |-> n.v, inputs |-> i.v, anonymous |-> a.v]) ELSE Err

EmptyInterface == [ctor |-> << >>, fns |-> << >>, evs |-> << >>, fallback |-> FALSE, receive |-> FALSE]

\* one entry added to an interface
AddEntry(c, x) ==
    IF x.j # "obj" THEN Err
    ELSE LET t == Field(x, kType, RText, Err) IN
      IF t.s # "ok" THEN Err
      ELSE CASE t.v = vFunction -> LET f == RFunction(x) IN IF f.s = "ok" THEN Ok([c EXCEPT !.fns = Append(c.fns, f.v)]) ELSE Err
             [] t.v = vEvent -> LET e == REvent(x) IN IF e.s = "ok" THEN Ok([c EXCEPT !.evs = Append(c.evs, e.v)]) ELSE Err
             [] t.v = vConstructor -> LET i == Field(x, kInputs, LAMBDA y : RList(y, RParam), Err) IN
                                      IF i.s = "ok" THEN Ok([c EXCEPT !.ctor = << [inputs |-> i.v] >>]) ELSE Err
             [] t.v = vFallback -> Ok([c EXCEPT !.fallback = TRUE])
             [] t.v = vReceive -> Ok([c EXCEPT !.receive = TRUE])
             [] OTHER -> Err

LoadReply(doc) ==
    IF doc.j # "arr" THEN Err        \* also "raw": a text that is not JSON
    ELSE Fold(LAMBDA r, x : IF r.s = "ok" THEN AddEntry(r.v, x) ELSE Err, Ok(EmptyInterface), doc.a)

(***************************************************************************)
(* Lookup.                                                                 *)
(***************************************************************************)
Named(list, name) == SelectSeq(list, LAMBDA x : x.name = name)
FirstNamed(list, name) == LET l == Named(list, name) IN IF l = << >> THEN Err ELSE Ok(l[1])
AllNamed(list, name) == LET l == Named(list, name) IN IF l = << >> THEN Err ELSE Ok(l)

\* interfaces that no lookup distinguishes: overload lists per name
SameByName(l, m) == Len(l) = Len(m) /\ \A i \in 1..Len(l) : Named(l, l[i].name) = Named(m, l[i].name)
Same(c, d) == /\ c.ctor = d.ctor /\ c.fallback = d.fallback /\ c.receive = d.receive
              /\ SameByName(c.fns, d.fns) /\ SameByName(c.evs, d.evs)

(***************************************************************************)
(* Serialization.  Key order in objects does not matter: objects are       *)
(* compared as sets of pairs.                                              *)
(***************************************************************************)
LOCAL Str(t) == [j |-> "str", t |-> t]
LOCAL Boo(b) == [j |-> "bool", b |-> b]
LOCAL Arr(s) == [j |-> "arr", a |-> s]
LOCAL Obj(es) == [j |-> "obj", o |-> es]
RECURSIVE Components(_)
Components(T) ==
    IF ~HasTuple(T) THEN << >>
    ELSE << << kComponents, Arr(MapSeq(LAMBDA m : Obj(<< << kType, Str(WriteAbiType(m)) >> >> \o Components(m)), InnerTuple(T))) >> >>
ParamJson(p) == Obj(MapSeq(LAMBDA x : << kInternal, Str(x) >>, p.internal)
                    \o << << kName, Str(p.name) >>, << kType, Str(WriteAbiType(p.kind)) >> >> \o Components(p.kind))
EventParamJson(p) == Obj(<< << kName, Str(p.name) >>, << kType, Str(WriteAbiType(p.kind)) >>, << kIndexed, Boo(p.indexed) >> >>
                         \o Components(p.kind))
LOCAL FunctionJson(f) == Obj(<< << kType, Str(vFunction) >>, << kName, Str(f.name) >>,
    << kInputs, Arr(MapSeq(ParamJson, f.inputs)) >>, << kOutputs, Arr(MapSeq(ParamJson, f.outputs)) >>,
    << kConstant, Boo(f.constant) >>, << kMutability, Str(f.mutability) >> >>)
LOCAL EventJson(e) == Obj(<< << kType, Str(vEvent) >>, << kName, Str(e.name) >>,
    << kInputs, Arr(MapSeq(EventParamJson, e.inputs)) >>, << kAnonymous, Boo(e.anonymous) >> >>)
Entries(c) == MapSeq(LAMBDA x : Obj(<< << kType, Str(vConstructor) >>, << kInputs, Arr(MapSeq(ParamJson, x.inputs)) >> >>), c.ctor)
              \o MapSeq(FunctionJson, c.fns) \o MapSeq(EventJson, c.evs)
              \o (IF c.receive THEN << Obj(<< << kType, Str(vReceive) >> >>) >> ELSE << >>)
              \o (IF c.fallback THEN << Obj(<< << kType, Str(vFallback) >> >>) >> ELSE << >>)
SerializeDoc(c) == Arr(Entries(c))

\* an acceptable serialization of c: every entry once, nothing else, and it loads as c again
RECURSIVE SameTree(_, _)
SameTree(x, y) ==
    /\ x.j = y.j
    /\ CASE x.j = "arr" -> Len(x.a) = Len(y.a) /\ \A i \in 1..Len(x.a) : SameTree(x.a[i], y.a[i])
         [] x.j = "obj" -> /\ Len(x.o) = Len(y.o)
                           /\ \A i \in 1..Len(x.o) : \E k \in 1..Len(y.o) :
                                 x.o[i][1] = y.o[k][1] /\ SameTree(x.o[i][2], y.o[k][2])
         [] OTHER -> x = y
LOCAL Count(s, x) == Len(SelectSeq(s, LAMBDA y : SameTree(x, y)))
SerializesAs(c, doc) ==
    /\ doc.j = "arr"
    /\ LET a == Entries(c)
       IN Len(a) = Len(doc.a) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(doc.a, a[i])
    /\ LET r == LoadReply(doc) IN r.s = "ok" /\ Same(r.v, c)
=============================================================================
