----------------------------- MODULE LongHalves -----------------------------
(* All pairs of boundary halves, as histories of a long buffer.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, TLC, Json, Vector

Pow == [k \in 0..30 |-> 2 ^ k]
MinInt == (-2147483647) - 1
Half == LET s == {0, -1, 2147483647, MinInt, -2147483647} \cup UNION {{Pow[k], Pow[k] - 1, -Pow[k], (-Pow[k]) - 1} : k \in 0..30}
        IN SetToSeq(s)

VARIABLE i
Init == i = 1
Next == /\ i <= Len(Half)
        /\ PrintT(ToJson([kind |-> "long", exp |-> i % 6,
             ops |-> [k \in 1..Len(Half) |-> [o |-> "app", i |-> <<0, 0>>, v |-> <<Half[i], Half[k]>>, n |-> 0]]
                     \o <<[o |-> "obs", i |-> <<0, 0>>, v |-> <<0, 0>>, n |-> 0]>>
                     \o [k \in 1..Len(Half) |-> [o |-> "set", i |-> <<0, k - 1>>, v |-> <<Half[k], Half[i]>>, n |-> 0]]
                     \o <<[o |-> "obs", i |-> <<0, 0>>, v |-> <<0, 0>>, n |-> 0]>>]))
        /\ i' = i + 1
=============================================================================
