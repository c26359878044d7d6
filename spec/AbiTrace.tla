------------------------------ MODULE AbiTrace ------------------------------
(***************************************************************************)
(* Conformance of a recorded run: every event of the trace is a transition *)
(* of Abi.  An event that is none is reported and skipped, so that one run *)
(* reports all of them.                                                    *)
(***************************************************************************)
EXTENDS Abi, Json, IOUtils
VARIABLES consumed, loaded, refused

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

Init == consumed = 0 /\ loaded = NoState /\ refused = << >>

Step == /\ consumed < N
        /\ consumed' = consumed + 1
        /\ LET e == Trace[consumed + 1] IN
           /\ loaded' = After(loaded, e.op, e.args, e.res)
           /\ IF Accepts(loaded, e.op, e.args, e.res)
              THEN refused' = refused
              ELSE /\ refused' = Append(refused, e.id)
                   /\ PrintT("MISMATCH " \o ToString(consumed + 1))
                   /\ PrintT("WANTED " \o ToJson([i |-> consumed + 1, want |-> Wanted(loaded, e.op, e.args)]))
        /\ IF consumed' = N THEN PrintT("CONSUMED " \o ToString(N)) ELSE TRUE

Next == Step
Spec == Init /\ [][Next]_<< consumed, loaded, refused >>
Conforms == refused = << >>
=============================================================================
