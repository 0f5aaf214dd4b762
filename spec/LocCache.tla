------------------------------ MODULE LocCache ------------------------------
(* The location cache: for each level 1..3 (or 1..5) the elements of that     *)
(* depth in document order, each with the position of its first child in the  *)
(* next level's list (-1: none; the last level has no next list).             *)
(* Elements are <<token index, depth, ..>> in document order.                 *)
EXTENDS Integers, Sequences, SequencesExt

LcLevels(els, n) ==
  FoldLeft(LAMBDA a, e :
             IF e[2] < 1 \/ e[2] > n THEN [a EXCEPT !.d = e[2]]
             ELSE LET link == a.d = e[2] - 1 /\ a.d >= 1
                      pl   == a.lv[e[2] - 1]
                      up   == IF link THEN [a.lv EXCEPT ![e[2] - 1][Len(pl)][2] = Len(a.lv[e[2]])] ELSE a.lv
                  IN [d |-> e[2], lv |-> [up EXCEPT ![e[2]] = Append(@, <<e[1], -1>>)]],
           [d |-> -1, lv |-> [k \in 1..n |-> <<>>]], els).lv

\* the same, stated without an order of construction
LcDeclarative(els, n) ==
  LET of(d) == SelectSeq([k \in 1..Len(els) |-> <<els[k][1], els[k][2], k>>], LAMBDA x : x[2] = d)
      child(x, d) == IF d < n /\ x[3] < Len(els) /\ els[x[3] + 1][2] = d + 1
                     THEN Len(SelectSeq(SubSeq(els, 1, x[3]), LAMBDA y : y[2] = d + 1))
                     ELSE -1
  IN [d \in 1..n |-> [k \in 1..Len(of(d)) |-> <<of(d)[k][1], child(of(d)[k], d)>>]]

\* as recorded: the fifth list of the 5 level cache holds bare token indexes
LcOf(els, n) ==
  LET m  == IF n = 5 THEN 5 ELSE 3
      lv == LcLevels(els, m)
  IN [d \in 1..5 |-> IF d > m THEN <<>>
                     ELSE IF d = 5 THEN [k \in 1..Len(lv[5]) |-> <<0, lv[5][k][1]>>]
                     ELSE lv[d]]
=============================================================================
