------------------------------ MODULE XmlChars ------------------------------
(* The character classes of XML 1.1 (productions Char, S, NameStartChar,      *)
(* NameChar) and the derived class of plain content characters.  Everything   *)
(* else in the specification refers to characters only through these          *)
(* operators.                                                                 *)
EXTENDS Integers, Sequences

ValidRanges == << <<1, 55295>>, <<57344, 65533>>, <<65536, 1114111>> >>

SpaceRanges == << <<9, 10>>, <<13, 13>>, <<32, 32>> >>

NameStartRanges ==
  << <<58, 58>>, <<65, 90>>, <<95, 95>>, <<97, 122>>, <<192, 214>>,
     <<216, 246>>, <<248, 767>>, <<880, 893>>, <<895, 8191>>,
     <<8204, 8205>>, <<8304, 8591>>, <<11264, 12271>>, <<12289, 55295>>,
     <<63744, 64975>>, <<65008, 65533>>, <<65536, 983039>> >>

NameExtraRanges ==
  << <<45, 46>>, <<48, 57>>, <<183, 183>>, <<768, 879>>, <<8255, 8256>> >>

InRanges(c, rs) == \E i \in 1..Len(rs) : rs[i][1] <= c /\ c <= rs[i][2]

Ws(c) == c = 32 \/ c = 10 \/ c = 9 \/ c = 13

Valid(c) == IF c < 55296 THEN c >= 1
            ELSE \/ 57344 <= c /\ c <= 65533
                 \/ 65536 <= c /\ c <= 1114111

NameStart(c) ==
  IF c < 128 THEN (97 <= c /\ c <= 122) \/ (65 <= c /\ c <= 90) \/ c = 58 \/ c = 95
  ELSE InRanges(c, NameStartRanges)

NameCh(c) ==
  IF c < 128
  THEN \/ (97 <= c /\ c <= 122) \/ (65 <= c /\ c <= 90)
       \/ (48 <= c /\ c <= 57) \/ c = 58 \/ c = 95 \/ c = 45 \/ c = 46
  ELSE InRanges(c, NameStartRanges) \/ InRanges(c, NameExtraRanges)

\* what may stand in text without any further check: not < & ]
Content(c) == Valid(c) /\ c # 60 /\ c # 38 /\ c # 93

(* The classes as lists of maximal disjoint ranges in ascending order         *)
RECURSIVE Merge(_)
Merge(rs) == IF Len(rs) < 2 THEN rs
             ELSE IF rs[2][1] <= rs[1][2] + 1
                  THEN Merge(<< <<rs[1][1], IF rs[1][2] > rs[2][2] THEN rs[1][2] ELSE rs[2][2]>> >> \o SubSeq(rs, 3, Len(rs)))
                  ELSE << rs[1] >> \o Merge(Tail(rs))
RECURSIVE Insert(_, _)
Insert(rs, r) == IF rs = <<>> \/ r[1] < rs[1][1] THEN <<r>> \o rs ELSE <<rs[1]>> \o Insert(Tail(rs), r)
RECURSIVE Sorted(_)
Sorted(rs) == IF rs = <<>> THEN <<>> ELSE Insert(Sorted(Tail(rs)), Head(rs))

RangesOf(class) == CASE class = "space"     -> Merge(Sorted(SpaceRanges))
                     [] class = "valid"     -> Merge(Sorted(ValidRanges))
                     [] class = "namestart" -> Merge(Sorted(NameStartRanges))
                     [] class = "name"      -> Merge(Sorted(NameStartRanges \o NameExtraRanges))
                     [] class = "content"   -> << <<1, 37>>, <<39, 59>>, <<61, 92>>, <<94, 55295>> >> \o Tail(ValidRanges)

\* the part of a class within a..b
Clip(rs, a, b) == SelectSeq([k \in 1..Len(rs) |-> <<IF rs[k][1] < a THEN a ELSE rs[k][1], IF rs[k][2] > b THEN b ELSE rs[k][2]>>],
                            LAMBDA r : r[1] <= r[2])

(* The fast paths above agree with the tables; checked by TLC (CharGen) *)
ClassesConsistent(c) ==
  /\ Valid(c) <=> InRanges(c, ValidRanges)
  /\ Ws(c) <=> InRanges(c, SpaceRanges)
  /\ NameStart(c) <=> InRanges(c, NameStartRanges)
  /\ NameCh(c) <=> (InRanges(c, NameStartRanges) \/ InRanges(c, NameExtraRanges))
  /\ NameStart(c) => NameCh(c)
  /\ NameCh(c) => Valid(c)
  /\ Ws(c) => Valid(c) /\ ~NameCh(c)
  /\ Content(c) <=> InRanges(c, RangesOf("content"))
  /\ NameCh(c) <=> InRanges(c, RangesOf("name"))

-----------------------------------------------------------------------------
(* Literals: TLC strings as sequences of character codes (printable ASCII)    *)
Printable ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             CHOOSE i \in 32..126 : SubSeq(Printable, i - 31, i - 31) = ch]

S(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

Rep(x, n) == [i \in 1..n |-> x]

(* UTF-8 encoding of a code point *)
Utf8(c) ==
  LET low(d) == 128 + ((c \div d) % 64) IN
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), low(1)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), low(64), low(1)>>
  ELSE <<240 + (c \div 262144), low(4096), low(64), low(1)>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
=============================================================================
