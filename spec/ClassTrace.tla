----------------------------- MODULE ClassTrace ------------------------------
(* Trace validation of character classes: every record lists the maximal runs *)
(* of members the code reports within a block of code points.                 *)
EXTENDS Integers, Sequences, XmlChars, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Want(r) == Clip(RangesOf(r.class), r.from, r.to)
Diffs(r) ==
  (IF r.v # "ok" THEN {<<"class-" \o r.class, r.v>>}
   ELSE (IF r.runs # Want(r)
         THEN {<<"class-" \o r.class, <<SelectSeq(r.runs, LAMBDA x : \A k \in 1..Len(Want(r)) : Want(r)[k] # x),
                                       SelectSeq(Want(r), LAMBDA x : \A k \in 1..Len(r.runs) : r.runs[k] # x)>>>>} ELSE {})
        \cup (IF r.extra # 0 THEN {<<"beyond-unicode-" \o r.class, r.extra>>} ELSE {}))

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET d == Diffs(Trace[i]) IN
           IF d = {} THEN TRUE ELSE PrintT(ToJson([i |-> i, diffs |-> d]))
        /\ i' = i + 1
=============================================================================
