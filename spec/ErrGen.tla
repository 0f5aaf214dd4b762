-------------------------------- MODULE ErrGen --------------------------------
(* All sequences of a few errors, each wrapping none or any earlier one.       *)
EXTENDS ErrChain, TLC, Json, IOUtils

Most == IF IOEnv.BIG = "1" THEN 4 ELSE 3
VARIABLE errs

Causes(k) == IF k = "wrap" THEN 1..Len(errs) ELSE IF k \in Wrapping THEN 0..Len(errs) ELSE {0}
Usable(k) == Len(errs) < 3 \/ k \in Wrapping \cup {"wrap"}
Init == errs = <<>>
Next == /\ Len(errs) < Most
        /\ \E k \in Kinds \cup Foreign \cup Zero : Usable(k) /\ \E c \in Causes(k) :
             /\ errs' = Append(errs, [k |-> k, c |-> c, m |-> Msg(Len(errs) + c), p |-> Par(Len(errs) + 2 * c)])
             /\ Len(errs') = Most => PrintT(ToJson([errs |-> errs', k |-> [i \in 1..Most |-> <<errs'[i].k, errs'[i].c>>]]))
Laws == ErrLaws(errs)
=============================================================================
