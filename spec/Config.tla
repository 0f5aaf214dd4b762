-------------------------------- MODULE Config --------------------------------
(* Construction. The options of a parser are applied in order to a             *)
(* configuration; each changes exactly what it names, so that the last of a    *)
(* kind wins. The configuration decides whether there is a parser, and what    *)
(* the parser then does: parse the window, namespace aware or not, with a      *)
(* location cache of 3 or 5 levels. Other constructors accept or refuse their  *)
(* arguments.                                                                  *)
EXTENDS Integers, Sequences, SequencesExt, Ints

Conf0 == [isnil |-> TRUE, d |-> <<>>, off |-> N(0), len |-> N(0), ns |-> FALSE, lc |-> 3]

ApplyOpt(c, o) ==
  CASE o.o = "doc"   -> [c EXCEPT !.isnil = o.nil, !.d = o.d, !.off = N(0), !.len = N(Len(o.d))]
    [] o.o = "win"   -> [c EXCEPT !.isnil = o.nil, !.d = o.d, !.off = o.off, !.len = o.len]
    [] o.o = "ns"    -> [c EXCEPT !.ns = o.b]
    [] o.o = "lc"    -> [c EXCEPT !.lc = o.n]
    [] o.o = "reuse" -> c

ConfOf(opts) == FoldLeft(ApplyOpt, Conf0, opts)

Usable(c) == /\ ~c.isnil /\ Len(c.d) > 0
             /\ InRange(c.off, 0, Len(c.d))
             /\ InRange(c.len, 1, Len(c.d) - c.off[2])

\* what a usable configuration parses
Window(c) == SubSeq(c.d, c.off[2] + 1, c.off[2] + c.len[2])

----------------------------------------------------------------------------
(* other constructors: outcomes that are allowed, 0 success, 1 invalid        *)
(* argument error. What a reader does with an offset behind its end, and      *)
(* whether a negative page size exponent is refused or ignored, is left open; *)
(* exponents that need more memory than there is are not used.                *)

LastOf(a) == LET p == SelectSeq(a, LAMBDA x : ~Negative(x)) IN IF p = <<>> THEN N(10) ELSE p[Len(p)]

CtorWant(r) ==
  CASE r.what \in {"bytes", "nav"} -> IF r.nil THEN {1} ELSE {0}
    [] r.what \in {"pilot", "modifier"} -> IF r.nil THEN {1} ELSE {0}
    [] r.what \in {"utf8", "ascii"} ->
         IF r.nil \/ Negative(r.a[1]) \/ ~InRange(r.a[2], 0, Len(r.d)) THEN {1}
         ELSE IF InRange(r.a[1], 0, r.a[2][2]) THEN {0} ELSE {0, 1}
    [] r.what \in {"long", "int", "obj"} ->
         LET e == LastOf(r.a) IN
         (IF InRange(e, 0, 62) THEN {0} ELSE {1}) \cup (IF \E k \in 1..Len(r.a) : Negative(r.a[k]) THEN {1} ELSE {})
    [] r.what = "modenc" -> IF r.enc \in {0, 19} THEN {0} ELSE {2}
=============================================================================
