------------------------------- MODULE ErrTrace -------------------------------
(* Trace validation of error chains.                                           *)
EXTENDS ErrChain, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Diffs(r) == IF r.v # "ok" THEN {<<r.v, "">>} ELSE UNION {ErrDiff(r.errs, k, r.obs[k]) : k \in 1..Len(r.errs)}

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET d == Diffs(Trace[i]) IN IF d = {} THEN TRUE ELSE PrintT(ToJson([i |-> i, diffs |-> d]))
        /\ i' = i + 1
=============================================================================
