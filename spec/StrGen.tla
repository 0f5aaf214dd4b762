------------------------------- MODULE StrGen -------------------------------
(* Token contents: all sequences of content pieces in every kind of token,    *)
(* with the ranges of the document that consist of whole pieces.              *)
EXTENDS Integers, Sequences, SequencesExt, XmlChars, TLC, Json, IOUtils

Big == IOEnv.BIG = "1"
Refs == << S("&amp;"), S("&lt;"), S("&gt;"), S("&apos;"), S("&quot;"), S("&#65;"), S("&#x41;"), S("&#xe9;"), S("&#233;"), S("&#9;"), S("&#13;"), S("&#10;"), S("&#xD;"),
           S("&#x10FFFF;"), S("&#1114111;"), S("&#xFFFD;"), S("&#x1F600;"), S("&#0065;"), S("&#x00000041;"), S("&#xaBcD;"), S("&#127;"), S("&#128;"), S("&#x7FF;"), S("&#2048;"), S("&#65535;"), S("&#38;"), S("&#60;"), S("&#x26;") >>
Bad == { S("&#65535;") }
Plain == << S("a"), S(";"), S("#"), S("x9"), S(" "), <<13>>, <<10>>, <<9>>, <<13, 10>>, <<195, 169>>, <<229, 144, 141>>, <<240, 159, 152, 128>>, S("amp;"), S("]"), S(">"), S("'"), <<127>>, <<239, 191, 189>> >>
Pieces == SelectSeq(Refs, LAMBDA x : x \notin Bad) \o Plain
Kinds == <<"text", "attr", "cdata", "comment", "pi", "dtd">>

Open(k) == CASE k = "text" -> S("<e>") [] k = "attr" -> S("<e a=\"") [] k = "cdata" -> S("<e><![CDATA[") [] k = "comment" -> S("<e><!--") [] k = "pi" -> S("<e><?p ") [] k = "dtd" -> S("<!DOCTYPE e ")
Close(k) == CASE k = "text" -> S("</e>") [] k = "attr" -> S("\"/>") [] k = "cdata" -> S("]]></e>") [] k = "comment" -> S("--></e>") [] k = "pi" -> S("?></e>") [] k = "dtd" -> S("><e/>")

VARIABLES kind, ps, n
Init == kind \in {Kinds[i] : i \in 1..Len(Kinds)} /\ ps = <<>> /\ n = 0

\* a piece that starts with LF behind a piece that ends with CR forms one line
\* end with it: ranges do not separate them
Cut(p, i) == i = 0 \/ i = Len(p) \/ ~(p[i][Len(p[i])] = 13 /\ p[i + 1][1] = 10)
Start(p, i) == Len(Open(kind)) + Len(Cat(SubSeq(p, 1, i)))
Ranges(p) == IF kind # "text" /\ kind # "attr" THEN <<>>
             ELSE LET I == {<<i, j>> : i, j \in 0..Len(p)}
                      G == {x \in I : x[1] < x[2] /\ Cut(p, x[1]) /\ Cut(p, x[2])}
                  IN SetToSeq({<<Start(p, x[1]), Start(p, x[2]) - Start(p, x[1])>> : x \in G})

Emit1(p) == PrintT(ToJson([d |-> Open(kind) \o Cat(p) \o Close(kind), rng |-> Ranges(p), ns |-> Len(p) % 2 = 0, k |-> <<kind, Len(p), IF p = <<>> THEN <<>> ELSE p[1], IF Len(p) < 2 THEN <<>> ELSE p[2]>>]))
Next == /\ n < IF Big THEN 3 ELSE 2
        /\ \E i \in 1..Len(Pieces) :
             LET p == Append(ps, Pieces[i]) IN
             ps' = p /\ n' = n + 1 /\ UNCHANGED kind /\ Emit1(p)
=============================================================================
