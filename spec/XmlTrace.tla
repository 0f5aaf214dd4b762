------------------------------ MODULE XmlTrace ------------------------------
(* Trace validation: every line of the trace file is a document that the real *)
(* parser was given, with what was observed. The specification reads the same *)
(* document and says what should have been observed; each difference is       *)
(* printed as one JSON line. A behaviour of this module is the walk through   *)
(* the trace, one record per step.                                            *)
EXTENDS Integers, Sequences, XmlJudge, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET s == Doc(Trace[i])
               d == Diffs(Trace[i], s)
           IN IF d = {} THEN TRUE
              ELSE PrintT(ToJson([i |-> i, acc |-> Accepts(s), mode |-> s.mode, why |-> s.why, diffs |-> d]))
        /\ i' = i + 1
=============================================================================
