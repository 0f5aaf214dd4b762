------------------------------- MODULE ByteBuf -------------------------------
(* The byte buffer: a document whose bytes and slices can be read.            *)
EXTENDS Integers, Sequences, Ints

\* a slice that ends exactly at the end of the document may be refused
ByteOk(d, op, r) ==
  LET refused == r.c = 1 /\ r.b = <<>>
  IN
  CASE op.o = "at"    -> IF InRange(op.i, 0, Len(d) - 1) THEN r.c = 0 /\ r.b = <<d[op.i[2] + 1]>> ELSE refused
    [] op.o = "slice" -> IF ~InRange(op.i, 0, Len(d) - 1) \/ ~InRange(op.l, 1, Len(d)) THEN refused
                         ELSE IF op.i[2] + op.l[2] > Len(d) THEN refused
                         ELSE \/ r.c = 0 /\ r.b = SubSeq(d, op.i[2] + 1, op.i[2] + op.l[2])
                              \/ refused /\ op.i[2] + op.l[2] = Len(d)
    [] op.o = "all"   -> r.c = 0 /\ r.b = d
    [] op.o = "size"  -> r.c = 0 /\ r.b = <<Len(d)>>
    [] OTHER          -> r.c = 0

ByteDiffs(r) ==
  IF r.v # "ok" \/ Len(r.res) # Len(r.ops) THEN {<<"bytes", r.v>>}
  ELSE LET bad == {k \in 1..Len(r.ops) : ~ByteOk(r.d, r.ops[k], r.res[k])}
       IN IF bad = {} THEN {}
          ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
               IN {<<"bytes-" \o r.ops[k].o, <<r.ops[k].i, r.ops[k].l, r.res[k].c, r.res[k].b>>>>}

\* all operations worth asking of a document of n bytes
ByteArgs(n) == {N(k) : k \in -3..n+3} \cup Extremes
ByteOps(n) == {[o |-> "at", i |-> a, l |-> N(0)] : a \in ByteArgs(n)}
              \cup {[o |-> "slice", i |-> a, l |-> b] : a, b \in ByteArgs(n)}
=============================================================================
