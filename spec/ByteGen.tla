------------------------------- MODULE ByteGen -------------------------------
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, ByteBuf, TLC, Json, IOUtils
Big == IOEnv.BIG = "1"
VARIABLE i
Doc(n) == [k \in 1..n |-> (k * 37 + n) % 256]
Init == i = 0
Next == /\ i <= IF Big THEN 24 ELSE 12
        /\ PrintT(ToJson([d |-> Doc(i), ops |-> SetToSeq(ByteOps(i)) \o
              <<[o |-> "all", i |-> N(0), l |-> N(0)], [o |-> "size", i |-> N(0), l |-> N(0)], [o |-> "setsize", i |-> N(0), l |-> N(0)], [o |-> "size", i |-> N(0), l |-> N(0)],
                [o |-> "clear", i |-> N(0), l |-> N(0)], [o |-> "all", i |-> N(0), l |-> N(0)], [o |-> "setsize", i |-> N(i + 4), l |-> N(0)], [o |-> "at", i |-> N(i), l |-> N(0)],
                [o |-> "slice", i |-> N(0), l |-> N(i + 1)], [o |-> "size", i |-> N(0), l |-> N(0)]>>]))
        /\ i' = i + 1
=============================================================================
