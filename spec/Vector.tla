------------------------------- MODULE Vector -------------------------------
(* Int, long and object buffers as growable vectors of <<high, low>> halves,  *)
(* and what a complete observation of one shows.                              *)
EXTENDS Integers, Sequences, SequencesExt, Ints

\* how a value of each kind of buffer is told: int buffers hold 32 bits, object
\* buffers hold the object with that number (number 0 mod 5: no object)
Value(kind, v) ==
  CASE kind = "long" -> <<v[1], v[2]>>
    [] kind = "int"  -> <<IF v[2] < 0 THEN -1 ELSE 0, v[2]>>
    [] OTHER         -> <<0, IF v[2] % 5 = 0 THEN 0 ELSE v[2]>>

VIn(v, i) == InRange(i, 0, Len(v) - 1)

\* the vector after an operation
VApply(kind, v, op) ==
  CASE op.o = "app"   -> Append(v, Value(kind, op.v))
    [] op.o = "appn"  -> v \o [k \in 1..op.n |-> Value(kind, <<op.v[1], op.v[2] + k - 1>>)]
    [] op.o = "set"   -> IF VIn(v, op.i) THEN [v EXCEPT ![op.i[2] + 1] = Value(kind, op.v)] ELSE v
    [] op.o = "size"  -> SubSeq(v, 1, op.n)
    [] op.o = "clear" -> <<>>
    [] OTHER          -> v

\* is the result r of op, on vector v, right?  Codes: 0 success, 1 argument error
VOk(kind, v, op, r) ==
  CASE op.o = "obs" ->
         /\ r.c = 0
         /\ r.get = v
         /\ \A k \in 1..Len(r.bad) : r.bad[k] = 1
         /\ kind # "obj" => r.n = Len(v) /\ r.exp = v
         /\ kind = "long" => /\ r.up = [k \in 1..Len(v) |-> v[k][1]]
                             /\ r.lo = [k \in 1..Len(v) |-> v[k][2]]
    [] op.o = "set" -> r.c = (IF VIn(v, op.i) THEN 0 ELSE 1)
    [] op.o = "get" -> IF VIn(v, op.i) THEN r.c = 0 /\ r.get = <<v[op.i[2] + 1]>> ELSE r.c = 1
    [] OTHER -> r.c = 0

\* the first operation of a history with a wrong result, as a difference
VecDiffs(r) ==
  IF r.v # "ok" THEN {<<"vector", r.v>>}
  ELSE LET f == FoldLeft(LAMBDA a, k :
                  IF a.bad # 0 THEN a
                  ELSE IF k > Len(r.res) THEN [a EXCEPT !.bad = k]
                  ELSE IF ~VOk(r.kind, a.v, r.ops[k], r.res[k]) THEN [a EXCEPT !.bad = k]
                  ELSE [a EXCEPT !.v = VApply(r.kind, a.v, r.ops[k])],
                  [v |-> <<>>, bad |-> 0], [k \in 1..Len(r.ops) |-> k])
       IN IF f.bad = 0 THEN {} ELSE {<<"vector-" \o r.kind, <<f.bad, r.ops[f.bad].o, IF Len(f.v) <= 40 THEN f.v ELSE <<>>>>>>}
=============================================================================
