------------------------------ MODULE CharGen -------------------------------
(* Code points around every boundary of the character classes, in every place *)
(* of a document where a class decides; and the agreement of the operators of *)
(* the automaton with the tables, block by block.                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, XmlChars, TLC, Json, IOUtils

Big == IOEnv.BIG = "1"
All == ValidRanges \o SpaceRanges \o NameStartRanges \o NameExtraRanges
Edges == UNION {{All[k][1] - 1, All[k][1], All[k][1] + 1, All[k][2] - 1, All[k][2], All[k][2] + 1} : k \in 1..Len(All)}
Planes == UNION {{65536 * p - 2, 65536 * p - 1, 65536 * p, 65536 * p + 1} : p \in 1..16}
Points == {c \in Edges \cup Planes \cup 1..255 \cup {2047, 2048, 8232, 8233, 12288, 55296, 57343, 64976, 65007, 65279} : c >= 1 /\ c <= 1114111}

\* blocks for the agreement of operators and tables
BlockSize == 4096
Blocks == IF Big THEN 0..272 ELSE {b \in 0..272 : b < 17 \/ b % 16 \in {0, 15} \/ \E c \in Edges : c \div BlockSize = b}

Hex(n) == LET digs == S("0123456789abcdef")
              RECURSIVE H(_)
              H(x) == IF x < 16 THEN <<digs[x + 1]>> ELSE H(x \div 16) \o <<digs[(x % 16) + 1]>>
          IN H(n)
Dec(n) == S(ToString(n))

Docs(c) ==
  LET u == Utf8(c) IN
  << <<"start", S("<") \o u \o S("/>")>>,
     <<"name", S("<a") \o u \o S("b/>")>>,
     <<"end", S("<a") \o u \o S("></a") \o u \o S(">")>>,
     <<"attrstart", S("<a ") \o u \o S("='v'/>")>>,
     <<"attrname", S("<a b") \o u \o S("c='v'/>")>>,
     <<"value", S("<a b='") \o u \o S("'/>")>>,
     <<"text", S("<a>") \o u \o S("</a>")>>,
     <<"text2", S("<a>x") \o u \o S("y<b/></a>")>>,
     <<"comment", S("<!--") \o u \o S("--><a/>")>>,
     <<"cdata", S("<a><![CDATA[") \o u \o S("]]></a>")>>,
     <<"pitarget", S("<?") \o u \o S("?><a/>")>>,
     <<"pitarget2", S("<?p") \o u \o S("q v?><a/>")>>,
     <<"pivalue", S("<a><?p ") \o u \o S("?></a>")>>,
     <<"doctype", S("<!DOCTYPE ") \o u \o S("><a/>")>>,
     <<"doctype2", S("<!DOCTYPE a ") \o u \o S("><a/>")>>,
     <<"prefix", S("<p:a xmlns:p='") \o u \o S("'/>")>>,
     <<"local", S("<p:") \o u \o S("a xmlns:p='u'/>")>>,
     <<"between", S("<a") \o u \o S("b='v'") \o u \o S("c='w'/>")>>,
     <<"prolog", S("<?p?>") \o u \o S("<a/>") \o u>>,
     <<"hexref", S("<a>&#x") \o Hex(c) \o S(";</a>")>>,
     <<"decref", S("<a b='&#") \o Dec(c) \o S(";'/>")>> >>

VARIABLES todo, i
Init == todo = "blocks" /\ i = 0
Next == \/ /\ todo = "blocks" /\ i <= 272
           /\ i \in Blocks => \A c \in (i * BlockSize)..(i * BlockSize + BlockSize - 1) : Assert(ClassesConsistent(c), c)
           /\ todo' = (IF i = 272 THEN "docs" ELSE todo)
           /\ i' = (IF i = 272 THEN 0 ELSE i + 1)
        \/ /\ todo = "docs" /\ i = 0
           /\ \A c \in Points : \A ds \in {Docs(c)} : \A k \in 1..Len(ds) :
                PrintT(ToJson([d |-> ds[k][2], ns |-> (c + k) % 2 = 0, k |-> <<ds[k][1], c>>]))
           /\ i' = 1 /\ UNCHANGED todo
=============================================================================
