----------------------------- MODULE PagedBuffer -----------------------------
(* The paged implementation scheme of the buffers: pages of P = 2^exp         *)
(* entries, a size, truncation that leaves pages in place.  TLC checks that   *)
(* it refines Vector (Inv), and its state - size and page fill - is what test *)
(* histories have to cover: every transition of it is emitted as a history    *)
(* that ends in complete observations.                                        *)
EXTENDS Integers, Sequences, SequencesExt, Vector, TLC, Json, IOUtils

Kind == IOEnv.KIND
Big  == IOEnv.BIG = "1"
MaxSize(e) == IF Big THEN (IF e = 2 THEN 13 ELSE 9) ELSE (IF e = 2 THEN 9 ELSE 6)
Depth == IF Big THEN 16 ELSE 11

VARIABLES exp, pages, size, v, path, n
vars == <<exp, pages, size, v, path, n>>
P == 2 ^ exp

Val(k) == <<IF k % 3 = 0 THEN -k ELSE k, IF k % 2 = 0 THEN -k - 100 ELSE k + 100>>
ValOf(k) == IF Kind = "obj" THEN <<0, k>> ELSE Val(k)

\* one append on [pages, size]
PAppend(st, x) ==
  IF st.size < P * Len(st.pages)
  THEN LET pg == st.size \div P + 1
           o  == st.size % P
       IN [pages |-> [st.pages EXCEPT ![pg] = Append(SubSeq(@, 1, o), x)], size |-> st.size + 1]
  ELSE [pages |-> Append(st.pages, <<x>>), size |-> st.size + 1]

PApply(st, op) ==
  CASE op.o = "app"   -> PAppend(st, Value(Kind, op.v))
    [] op.o = "appn"  -> FoldLeft(LAMBDA a, k : PAppend(a, Value(Kind, <<op.v[1], op.v[2] + k - 1>>)), st, [k \in 1..op.n |-> k])
    [] op.o = "set"   -> IF InRange(op.i, 0, st.size - 1)
                         THEN [st EXCEPT !.pages[op.i[2] \div P + 1][(op.i[2] % P) + 1] = Value(Kind, op.v)] ELSE st
    [] op.o = "size"  -> [st EXCEPT !.size = op.n]
    [] op.o = "clear" -> [st EXCEPT !.size = 0]

Op(o, i, x, k) == [o |-> o, i |-> i, v |-> x, n |-> k]
Z == <<0, 0>>
Ops(k) == {Op("app", Z, ValOf(k), 0), Op("appn", Z, ValOf(k), 2), Op("appn", Z, ValOf(k), P), Op("clear", Z, Z, 0)}
          \cup {Op("set", N(i), ValOf(k), 0) : i \in {-1, 0, size \div 2, size - 1, size, size + 1, size + P}}
          \cup (IF Kind = "obj" THEN {} ELSE {Op("size", Z, Z, i) : i \in 0..size})

Obs == Op("obs", Z, Z, 0)
Emit1(p, e) == PrintT(ToJson([kind |-> Kind, exp |-> e, ops |-> p]))

Init == /\ exp \in {0, 1, 2}
        /\ pages = <<>> /\ size = 0 /\ v = <<>> /\ path = <<>> /\ n = 1

Next == \E op \in Ops(n * 11 + 3) :
          LET st == PApply([pages |-> pages, size |-> size], op) IN
          /\ st.size <= MaxSize(exp)
          /\ pages' = st.pages /\ size' = st.size
          /\ v' = VApply(Kind, v, op)
          /\ path' = Append(path, op) /\ n' = n + 1 /\ exp' = exp
          /\ Emit1(path \o <<op, Obs, Op("app", Z, ValOf(n * 11 + 9), 0), Obs>>, exp)

Small == n < Depth
View == <<exp, size, [k \in 1..Len(pages) |-> Len(pages[k])]>>

\* refinement: the pages hold exactly the vector
Inv == /\ Len(v) = size
       /\ \A i \in 0..size-1 : /\ (i \div P) + 1 <= Len(pages)
                               /\ (i % P) + 1 <= Len(pages[(i \div P) + 1])
                               /\ pages[(i \div P) + 1][(i % P) + 1] = v[i + 1]
=============================================================================
