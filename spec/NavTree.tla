------------------------------- MODULE NavTree -------------------------------
(* The navigator as a cursor in the element tree. Elements are                *)
(* <<token index, depth, ..>> in document order; the cursor is 0 for the      *)
(* document node or a position in that list.                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

\* positions of the subtree below k (without k)
SubEnd(els, k) ==
  LET out == {j \in k+1..Len(els) : els[j][2] <= els[k][2]}
  IN IF out = {} THEN Len(els) ELSE MinOf(out) - 1

ParentPos(els, k) ==
  IF els[k][2] = 0 THEN 0 ELSE MaxOf({j \in 1..k-1 : els[j][2] = els[k][2] - 1})

ChildSet(els, k) == {j \in k+1..SubEnd(els, k) : els[j][2] = els[k][2] + 1}

SiblingSet(els, k) == IF els[k][2] = 0 THEN {k} ELSE ChildSet(els, ParentPos(els, k))

\* where move dir leads from cursor c: <<found, cursor>>
NavMove(els, c, dir) ==
  LET stay == <<0, c>>
      pick(S, f(_)) == IF S = {} THEN stay ELSE <<1, f(S)>>
  IN CASE dir = 0 -> <<1, 1>>
       [] dir = 1 -> IF c = 0 THEN stay ELSE <<1, ParentPos(els, c)>>
       [] dir = 2 -> IF c = 0 THEN <<1, 1>> ELSE pick(ChildSet(els, c), MinOf)
       [] dir = 3 -> IF c = 0 THEN <<1, 1>> ELSE pick(ChildSet(els, c), MaxOf)
       [] dir = 4 -> IF c = 0 THEN stay ELSE pick({j \in SiblingSet(els, c) : j > c}, MinOf)
       [] dir = 5 -> IF c = 0 THEN stay ELSE pick({j \in SiblingSet(els, c) : j < c}, MaxOf)
       [] OTHER   -> <<3, c>>

IndexOf(els, c) == IF c = 0 THEN 0 ELSE els[c][1]

-----------------------------------------------------------------------------
(* The same with the links of all elements computed at once, for long walks   *)
(* in large trees: <<parent, first child, last child, next, previous>> (0:    *)
(* none).                                                                     *)
NavTable(els) ==
  FoldLeft(LAMBDA a, k :
             LET d    == els[k][2]
                 par  == IF d = 0 THEN 0 ELSE a.path[d]
                 last == IF par = 0 THEN 0 ELSE a.t[par][3]
                 t1   == [a.t EXCEPT ![k][1] = par, ![k][5] = last]
                 t2   == IF last = 0 THEN t1 ELSE [t1 EXCEPT ![last][4] = k]
                 t3   == IF par = 0 THEN t2
                         ELSE [t2 EXCEPT ![par][2] = IF @ = 0 THEN k ELSE @, ![par][3] = k]
             IN [path |-> Append(SubSeq(a.path, 1, d), k), t |-> t3],
           [path |-> <<>>, t |-> [k \in 1..Len(els) |-> <<0, 0, 0, 0, 0>>]], [k \in 1..Len(els) |-> k]).t

TabMove(tab, c, dir) ==
  LET go(x) == IF x = 0 THEN <<0, c>> ELSE <<1, x>> IN
  CASE dir = 0 -> <<1, 1>>
    [] dir = 1 -> IF c = 0 THEN <<0, c>> ELSE <<1, tab[c][1]>>
    [] dir \in {2, 3} -> IF c = 0 THEN <<1, 1>> ELSE go(tab[c][dir])
    [] dir \in {4, 5} -> IF c = 0 THEN <<0, c>> ELSE go(tab[c][dir])
    [] OTHER -> <<3, c>>

\* the observations of a walk from the document node
WalkFrom(els, tab, dirs) ==
  FoldLeft(LAMBDA a, d : LET m == TabMove(tab, a.c, d)
                         IN [c |-> m[2], out |-> Append(a.out, <<m[1], IndexOf(els, m[2])>>)],
           [c |-> 0, out |-> <<>>], dirs).out

WalkOf(els, dirs) == LET S == {NavTable(els)} IN WalkFrom(els, CHOOSE t \in S : TRUE, dirs)

FirstWalkDiff(obs, exp) ==
  LET n == IF Len(obs) < Len(exp) THEN Len(obs) ELSE Len(exp)
      bad == {k \in 1..n : obs[k] # exp[k]}
  IN IF bad = {} THEN <<Len(obs), Len(exp)>>
     ELSE LET k == MinOf(bad) IN <<k, obs[k], exp[k]>>
=============================================================================
