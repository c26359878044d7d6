------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Events: signature topics, logs, parsing, filters.  An event is          *)
(* [name |-> text, inputs |-> << [name, kind, indexed], ... >>,            *)
(*  anonymous |-> BOOLEAN]; a log is [topics |-> << word, ... >>, data];   *)
(* a request for a topic is [k |-> "any"], [k |-> "this", v |-> value] or  *)
(* [k |-> "oneof", vs |-> values], a filter four of these over words.      *)
(***************************************************************************)
EXTENDS FlatBytes, TypeText, Utf8, Keccak

HashOfSignature(name, Ts) == Keccak256(Utf8Text(SignatureText(name, Ts)))
Selector(name, Ts) == SubSeq(HashOfSignature(name, Ts), 1, 4)
EventTypes(ev) == MapSeq(LAMBDA p : p.kind, ev.inputs)
SignatureTopic(ev) == HashOfSignature(ev.name, EventTypes(ev))

Hashed(T) == T.k \in {"bytes", "string", "array", "farray", "tuple"}
Indexed(ev) == SelectSeq(ev.inputs, LAMBDA p : p.indexed)
Plain(ev) == SelectSeq(ev.inputs, LAMBDA p : ~p.indexed)
Skip(ev) == IF ev.anonymous THEN 0 ELSE 1

(***************************************************************************)
(* Topics of indexed values: the word of a value type, or the hash of the  *)
(* in-place encoding (no offsets, no lengths; bytes padded as elements).   *)
(***************************************************************************)
LOCAL PadTo32(b) == LET m == Len(b) % 32 IN IF m = 0 THEN b ELSE b \o Zeros(32 - m)
RECURSIVE InPlace(_)
InPlace(v) ==
    CASE v.k \in {"bytes", "string"} -> v.b
      [] v.k \in {"array", "farray", "tuple"} -> Concat(MapSeq(LAMBDA x : PadTo32(InPlace(x)), v.ts))
      [] OTHER -> Enc(v)
TopicOf(v) == IF Hashed(v) THEN Keccak256(InPlace(v)) ELSE Enc(v)

\* the log the chain records for an event with these values
EmitLog(ev, vals) ==
    LET ix == SelectSeq(Ints(Len(vals)), LAMBDA i : ev.inputs[i].indexed)
        pl == SelectSeq(Ints(Len(vals)), LAMBDA i : ~ev.inputs[i].indexed)
    IN [topics |-> (IF ev.anonymous THEN << >> ELSE << SignatureTopic(ev) >>) \o MapSeq(LAMBDA i : TopicOf(vals[i]), ix),
        data |-> Encode(MapSeq(LAMBDA i : vals[i], pl))]

(***************************************************************************)
(* Parsing.                                                                *)
(***************************************************************************)
LOCAL TopicToken(T, w) == IF Hashed(T) THEN Ok([k |-> "fbytes", b |-> w])
                          ELSE LET r == Decode(<< T >>, w) IN IF r.s = "ok" THEN Ok(r.v[1]) ELSE Err
LOCAL ParseWith(ev, log, dataReply) ==
    LET ix == Indexed(ev)
        sk == Skip(ev)
    IN IF Len(log.topics) # Len(ix) + sk THEN Err
       ELSE LET tops == Sequence(Seqn(Len(ix), LAMBDA i : TopicToken(ix[i].kind, log.topics[i + sk]))) IN
            IF tops.s # "ok" \/ dataReply.s # "ok" THEN Err
            ELSE Ok(Seqn(Len(ev.inputs), LAMBDA i :
                     LET before(flag) == Len(SelectSeq(SubSeq(ev.inputs, 1, i), LAMBDA p : p.indexed = flag))
                     IN [name |-> ev.inputs[i].name,
                         value |-> IF ev.inputs[i].indexed THEN tops.v[before(TRUE)] ELSE dataReply.v[before(FALSE)]]))
\* sig: the signature topic of the event (computed once by the caller)
ParseReplies(ev, log, sig) ==
    IF ~ev.anonymous /\ (log.topics = << >> \/ log.topics[1] # sig) THEN {Err}
    ELSE {ParseWith(ev, log, r) : r \in DecodeReplies(MapSeq(LAMBDA p : p.kind, Plain(ev)), log.data)}

(***************************************************************************)
(* Filters.                                                                *)
(***************************************************************************)
LOCAL WordOf(v, T) ==
    IF ~TypeCheck(v, T) THEN Err
    ELSE LET w == TopicOf(v) IN IF Len(w) = 32 THEN Ok(w) ELSE Err
LOCAL AnyTopic == [k |-> "any"]
LOCAL Position(req, ix, i) ==
    IF req.k = "any" THEN Ok(AnyTopic)
    ELSE IF i > Len(ix) THEN Err
    ELSE IF req.k = "this"
         THEN LET r == WordOf(req.v, ix[i].kind) IN IF r.s = "ok" THEN Ok([k |-> "this", v |-> r.v]) ELSE Err
         ELSE LET r == Sequence(MapSeq(LAMBDA v : WordOf(v, ix[i].kind), req.vs))
              IN IF r.s = "ok" THEN Ok([k |-> "oneof", vs |-> r.v]) ELSE Err
\* reqs: three requests, for the first three indexed params; sig: the signature topic
FilterWith(ev, reqs, sig) ==
    LET ix == Indexed(ev)
        ps == Sequence(Seqn(3, LAMBDA i : Position(reqs[i], ix, i)))
    IN IF ps.s # "ok" THEN Err
       ELSE IF ev.anonymous THEN Ok(ps.v \o << AnyTopic >>)
       ELSE Ok(<< [k |-> "this", v |-> sig] >> \o ps.v)
FilterReply(ev, reqs) == FilterWith(ev, reqs, IF ev.anonymous THEN << >> ELSE SignatureTopic(ev))

\* what a node makes of a filter
Admits(filter, log) ==
    \A i \in 1..4 : CASE filter[i].k = "any" -> TRUE
                      [] filter[i].k = "this" -> Len(log.topics) >= i /\ log.topics[i] = filter[i].v
                      [] OTHER -> Len(log.topics) >= i /\ \E j \in 1..Len(filter[i].vs) : log.topics[i] = filter[i].vs[j]

LOCAL HexStr(w) == [j |-> "str", t |-> << 48, 120 >> \o HexText(w)]
FilterJson(f) ==
    [j |-> "arr", a |-> MapSeq(LAMBDA t :
        CASE t.k = "any" -> [j |-> "null"]
          [] t.k = "this" -> HexStr(t.v)
          [] OTHER -> [j |-> "arr", a |-> MapSeq(HexStr, t.vs)], f)]
=============================================================================
