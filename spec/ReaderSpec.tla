----------------------------- MODULE ReaderSpec -----------------------------
(* A reader: a cursor in the window [.., end) of a document (0-based).        *)
EXTENDS Integers, Sequences, SequencesExt, Ints, XmlChars

\* <<code point, size>> of the character at o, size 0 if it is malformed or cut
\* off by the end of the window
Decode(kind, d, end, o) ==
  LET b(k)  == d[o + k + 1]
      x     == b(0)
      has(k) == o + k < end
      co(k) == has(k) /\ 128 <= b(k) /\ b(k) <= 191
      bad   == <<-1, 0>>
  IN IF x < 128 THEN <<x, 1>>
     ELSE IF kind = "ascii" THEN bad
     ELSE IF x < 194 \/ x > 244 THEN bad
     ELSE IF x < 224 THEN IF co(1) THEN <<(x - 192) * 64 + (b(1) - 128), 2>> ELSE bad
     ELSE IF x < 240
          THEN IF ~(co(1) /\ co(2)) THEN bad
               ELSE LET c == (x - 224) * 4096 + (b(1) - 128) * 64 + (b(2) - 128)
                    IN IF c < 2048 \/ (55296 <= c /\ c <= 57343) THEN bad ELSE <<c, 3>>
     ELSE IF ~(co(1) /\ co(2) /\ co(3)) THEN bad
          ELSE LET c == (x - 240) * 262144 + (b(1) - 128) * 4096 + (b(2) - 128) * 64 + (b(3) - 128)
               IN IF c < 65536 \/ c > 1114111 THEN bad ELSE <<c, 4>>

Inside(st, o, end) == 0 <= o /\ o < end

\* the cursor after matching a sequence of code points from o, -1 if it fails
RECURSIVE SeqEnd(_, _, _, _, _)
SeqEnd(kind, d, end, o, s) ==
  IF s = <<>> THEN o
  ELSE IF o < 0 \/ o >= end THEN -1
  ELSE LET c == Decode(kind, d, end, o) IN
       IF c[2] = 0 \/ c[1] # s[1] THEN -1 ELSE SeqEnd(kind, d, end, o + c[2], Tail(s))

\* state: o cursor, known FALSE after a malformed character (the interface does
\* not say where the cursor is then) until the reader is repositioned
RApply(kind, d, end, st, op) ==
  LET in == st.known /\ 0 <= st.o /\ st.o < end
      c  == IF in THEN Decode(kind, d, end, st.o) ELSE <<-1, 0>>
  IN CASE op.o = "get"  -> IF ~in THEN st ELSE IF c[2] = 0 THEN [st EXCEPT !.known = FALSE] ELSE [st EXCEPT !.o = @ + c[2]]
       [] op.o = "skip" -> IF in /\ c[2] > 0 /\ c[1] = op.c THEN [st EXCEPT !.o = @ + c[2]] ELSE st
       [] op.o = "seq"  -> LET e == IF st.known THEN SeqEnd(kind, d, end, st.o, op.s) ELSE -1 IN IF e >= 0 THEN [st EXCEPT !.o = e] ELSE st
       [] op.o = "set"  -> [st EXCEPT !.o = IF op.i[1] = 0 THEN op.i[2] ELSE IF Negative(op.i) THEN -1000000 ELSE 1000000, !.known = TRUE]
       [] OTHER -> st

Failed(r) == r.c \in {1, 2, 3}
ROk(kind, d, end, st, op, r) ==
  LET in == st.known /\ 0 <= st.o /\ st.o < end
      c  == IF in THEN Decode(kind, d, end, st.o) ELSE <<-1, 0>>
  IN
  IF ~st.known /\ op.o \in {"get", "skip", "seq", "off"} THEN r.c # 9
  ELSE CASE op.o = "get" -> IF ~in THEN r.c = 3 ELSE IF c[2] = 0 THEN Failed(r) ELSE r.c = 0 /\ r.v = <<c[1]>>
    [] op.o = "skip" -> r.c = 0 /\ r.v = <<IF in /\ c[2] > 0 /\ c[1] = op.c THEN 1 ELSE 0>>
    [] op.o = "seq"  -> r.c = 0 /\ r.v = <<IF op.s = <<>> \/ SeqEnd(kind, d, end, st.o, op.s) >= 0 THEN 1 ELSE 0>>
    [] op.o = "off"  -> r.c = 0 /\ (-1000000 < st.o /\ st.o < 1000000 => r.v = <<st.o>>)
    [] op.o = "set"  -> r.c = 0
    [] OTHER ->       \* random access
         IF Negative(op.i) THEN Failed(r)
         ELSE IF op.i[1] # 0 \/ op.i[2] >= end THEN r.c = 3
         ELSE LET o == op.i[2]
                  x == Decode(kind, d, end, o)
              IN IF x[2] = 0 THEN Failed(r)
                 ELSE IF op.o = "at" THEN r.c = 0 /\ r.v = <<x[1]>>
                 ELSE IF x[1] = 13 /\ o + 1 < end /\ d[o + 2] = 10 THEN r.c = 0 /\ r.v = <<2, 10>>
                 ELSE r.c = 0 /\ r.v = <<x[2], x[1]>>

ReadDiffs(r) ==
  IF r.v # "ok" THEN {<<"reader", r.v>>}
  ELSE LET f == FoldLeft(LAMBDA a, k :
                  IF a.bad # 0 THEN a
                  ELSE IF k > Len(r.res) THEN [a EXCEPT !.bad = k]
                  ELSE IF ~ROk(r.kind, r.d, r.end[2], a.st, r.ops[k], r.res[k]) THEN [a EXCEPT !.bad = k]
                  ELSE [a EXCEPT !.st = RApply(r.kind, r.d, r.end[2], a.st, r.ops[k])],
                  [st |-> [o |-> r.off[2], known |-> TRUE], bad |-> 0], [k \in 1..Len(r.ops) |-> k])
       IN IF f.bad = 0 THEN {} ELSE {<<"reader-" \o r.ops[f.bad].o, <<f.bad, f.st.o, IF f.bad <= Len(r.res) THEN r.res[f.bad] ELSE "none">>>>}
=============================================================================
