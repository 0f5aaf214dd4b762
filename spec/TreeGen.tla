------------------------------- MODULE TreeGen -------------------------------
(* Every element tree of up to N elements, as documents: a state is a partial *)
(* tree, transitions open, close or insert what is no element. The documents  *)
(* vary in the form of childless elements and in what stands between them.    *)
EXTENDS Integers, Sequences, SequencesExt, XmlChars, XmlDoc, XmlObs, LocCache, NavTree, TLC, Json, IOUtils

Big == IOEnv.BIG = "1"
MaxN == IF Big THEN 9 ELSE 7

VARIABLES open, n, path     \* open elements, elements so far, path of +1 / -1

Init == open = 1 /\ n = 1 /\ path = <<1>>

\* text of a tree; variant v decides on the decoration
Deco(v, k) ==
  IF v = 0 THEN <<>>
  ELSE CASE (k * 7 + v * 3) % 9 = 0 -> S("x")
         [] (k * 7 + v * 3) % 9 = 1 -> S("<!--<a/>-->")
         [] (k * 7 + v * 3) % 9 = 2 -> S("<?p <b>?>")
         [] (k * 7 + v * 3) % 9 = 3 -> S("<![CDATA[</a>]]>")
         [] (k * 7 + v * 3) % 9 = 4 -> S(" &lt;a> ")
         [] (k * 7 + v * 3) % 9 = 5 -> S(" ")
         [] OTHER -> <<>>
AttrOk(v, k) == IF v = 0 \/ (k + v) % 3 # 0 THEN <<>> ELSE IF (k + v) % 2 = 0 THEN S(" x='1'") ELSE S(" x='&lt;a/>' y='2'")
\* a childless element: empty tag, or start and end tag
Leaf(p, k) == k < Len(p) /\ p[k] = 1 /\ p[k + 1] = -1
Text(p, v) ==
  Cat([k \in 1..Len(p) |->
    LET d == IF k = 1 THEN <<>> ELSE Deco(v, k) IN
    IF p[k] = 1
    THEN d \o (IF Leaf(p, k) /\ (v + k) % 2 = 0 THEN S("<a") \o AttrOk(v, k) \o S("/>") ELSE S("<a") \o AttrOk(v, k) \o S(">"))
    ELSE IF Leaf(p, k - 1)
         THEN IF (v + k - 1) % 2 = 0 THEN <<>> ELSE d \o S("</a>")
         ELSE d \o S("</a>")])

\* both definitions of the location cache agree, and navigation is consistent:
\* the parent of a child is where one came from, siblings come back
LawsOk(els) ==
  /\ \A m \in {3, 5} : LcLevels(els, m) = LcDeclarative(els, m)
  /\ \A c \in 0..Len(els) :
       /\ LET f == NavMove(els, c, 2) IN f[1] = 1 => NavMove(els, f[2], 1)[2] = c /\ NavMove(els, f[2], 5)[1] = 0
       /\ LET l == NavMove(els, c, 3) IN l[1] = 1 => NavMove(els, l[2], 1)[2] = c /\ NavMove(els, l[2], 4)[1] = 0
       /\ LET x == NavMove(els, c, 4) IN x[1] = 1 => NavMove(els, x[2], 5)[2] = c
       /\ NavMove(els, c, 2)[1] = NavMove(els, c, 3)[1]
  /\ \A tab \in {NavTable(els)} : \A c \in 0..Len(els), d \in 0..6 : NavMove(els, c, d) = TabMove(tab, c, d)

Els(p) == LET s == Parse(0, FALSE, Text(p, 0)) IN
          SelectSeq([k \in 1..Len(s.tok) |-> <<k - 1, s.tok[k][2], s.tok[k][1]>>], LAMBDA x : x[3] = TStart)

\* besides the tree itself: below a chain of elements, and twice below a root
Chain(p, c) == Rep(1, c) \o p \o Rep(-1, c)
Twice(p) == <<1>> \o p \o <<1, -1>> \o p \o <<-1>>
Emit1(p, v, what) == PrintT(ToJson([d |-> Text(p, v), k |-> <<what, v, path>>, ns |-> v % 2 = 0, n |-> n]))
\* with many childless elements, or elements with one child, in the place of
\* one childless element
Wide(p, k, m, rep) == SubSeq(p, 1, k - 1) \o Cat([i \in 1..m |-> rep]) \o SubSeq(p, k + 2, Len(p))
Widths == {17, 33, 65, 66, 100, 129, 200, 257, 300}
Emit2(p, v, key) == PrintT(ToJson([d |-> Text(p, v), k |-> key, ns |-> v % 2 = 0, n |-> n]))
Before(p, k) == IF p[k - 1] = 1 THEN 0 ELSE IF p[k - 2] = 1 THEN 1 ELSE 2     \* the sibling: none, childless, with children
Behind(p, k) == IF p[k + 2] = -1 THEN 0 ELSE IF p[k + 3] = -1 THEN 1 ELSE 2
LevelAt(p, k) == FoldLeft(LAMBDA a, x : a + x, -1, SubSeq(p, 1, k))
EmitWide(p) ==
  \A k \in {i \in 2..Len(p) - 1 : p[i] = 1 /\ p[i + 1] = -1} :
    \A m \in Widths, c \in 0..3 :
      /\ (Big \/ Before(p, k) * Behind(p, k) = 4 \/ (k + m + c + Len(p)) % 3 = 0) => Emit2(Chain(Wide(p, k, m, <<1, -1>>), c), 0, <<"wide", m, c + LevelAt(p, k), Before(p, k), Behind(p, k)>>)
      /\ (m < 150 /\ (k + m + c) % 5 = 0) => Emit2(Chain(Wide(p, k, m, <<1, 1, -1, -1>>), c), 0, <<"wide2", m, c + LevelAt(p, k), Before(p, k), Behind(p, k)>>)

Finish(p) == /\ Assert(LawsOk(Els(p)), p)
             /\ n < (IF Big THEN 8 ELSE 7) => EmitWide(p)
             /\ Assert(n > 5 \/ LawsOk(Els(Twice(p))), p)
             /\ \A v \in 0..(IF Big THEN 2 ELSE 3) : Emit1(p, v, "tree")
             /\ \A c \in 1..(IF Big THEN 4 ELSE 3) : Emit1(Chain(p, c), (n + c + Len(path)) % 4, "chain")
             /\ Emit1(Twice(p), n % 4, "twice")
             /\ n < 6 => Emit1(Chain(Twice(Twice(p)), n % 3), n % 4, "twice")

Next == \/ /\ open > 0 /\ n < MaxN
           /\ open' = open + 1 /\ n' = n + 1 /\ path' = Append(path, 1)
        \/ /\ open > 0
           /\ open' = open - 1 /\ n' = n /\ path' = Append(path, -1)
           /\ IF open = 1 THEN Finish(path') ELSE TRUE
=============================================================================
