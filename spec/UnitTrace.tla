------------------------------ MODULE UnitTrace ------------------------------
(* Trace validation of histories of single components.                        *)
EXTENDS Integers, Sequences, Vector, ByteBuf, ReaderSpec, TokFields, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Diffs(r) == CASE r.t = "vec"    -> VecDiffs(r)
              [] r.t = "bytes"  -> ByteDiffs(r)
              [] r.t = "reader" -> ReadDiffs(r)
              [] r.t = "tok"    -> TokDiffs(r)

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET d == Diffs(Trace[i]) IN
           IF d = {} THEN TRUE ELSE PrintT(ToJson([i |-> i, diffs |-> d]))
        /\ i' = i + 1
=============================================================================
