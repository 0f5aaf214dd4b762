-------------------------------- MODULE Ints --------------------------------
(* Go integers beyond TLC's 32 bit range, as <<class, delta>>:                *)
(* 0 delta, 1 MaxInt64+delta, 2 MinInt64+delta, 3 2^31+delta, 4 -2^31+delta,  *)
(* 5 2^32+delta, 6 2^62+delta.                                                *)
EXTENDS Integers

N(d) == <<0, d>>
MaxI == <<1, 0>>   MinI == <<2, 0>>
P31  == <<3, 0>>   M31  == <<4, 0>>   P32 == <<5, 0>>   P62 == <<6, 0>>

\* extremes that no document or buffer of the checks is large enough for
Extremes == {MaxI, <<1, -1>>, <<1, -2>>, <<1, -7>>, MinI, <<2, 1>>, <<2, 3>>, P31, <<3, -1>>, <<3, 2>>, M31, <<4, -1>>, <<4, 1>>, P32, <<5, 1>>, <<5, 2>>, P62, <<6, 1>>}
Negative(x) == x[1] \in {2, 4} \/ (x[1] = 0 /\ x[2] < 0)
InRange(x, lo, hi) == x[1] = 0 /\ lo <= x[2] /\ x[2] <= hi
=============================================================================
