------------------------------- MODULE EditGen -------------------------------
(* The neighbourhood of well-formed documents: a state is a position in a      *)
(* document with the automaton state there, and at every position a byte is    *)
(* left out, put in or replaced (by every byte of an alphabet, by itself in    *)
(* the other case and by its neighbours), or two are exchanged, or   *)
(* the input ends right behind a byte put in. Near misses of every keyword,    *)
(* name and delimiter are among these.                                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, XmlDoc, XmlObs, TLC, Json, IOUtils

Group == IOEnv.GROUP
Big   == IOEnv.BIG = "1"

Bom == <<239, 187, 191>>
Eacute == <<195, 169>>   Mei == <<229, 144, 141>>   Smile == <<240, 159, 152, 128>>

Docs ==
  CASE Group = "decl" ->
    << S("<?xml version='1.0' encoding='UTF-8' standalone='yes'?><e/>"),
       S("<?xml version=\"1.1\" encoding=\"us-ascii\" ?>") \o <<10>> \o S("<e>x</e>"),
       S("<?xml version='1.0' encoding='ASCII'?><e/>"),
       Bom \o S("<?xml version='1.0'") \o <<9>> \o S("encoding = 'utf-8' standalone=\"no\"?><e/>"),
       S("<?xml version=\"1.0\"?>") \o <<13>> \o S("<e/>"),
       S("<?xml version='1.0' standalone='no' ?><e/>") >>
  [] Group = "enc" ->
    << S("<?xml version='1.0' encoding='iso-8859-1'?><e/>"),
       S("<?xml version='1.0' encoding='utf-16le'?><e/>"),
       S("<?xml version='1.0' encoding='windows-1252'?><e/>"),
       S("<?xml version='1.0' encoding='cp1251' standalone='no'?><e/>") >>
  [] Group = "ref" ->
    << S("<a>&amp;&lt;&gt;&quot;&apos;x</a>"),
       S("<a b='&amp;&lt;&gt;&quot;&apos;'/>"),
       S("<a>&#65;&#x4a;&#x10FFFF;&#1114111;</a>"),
       S("<a b=\"&#65;&#x4a;\" xmlns='&#x75;&amp;'>t &#0009;</a>") >>
  [] Group = "tag" ->
    << S("<a><b c='d' e=\"f\"/><g >t</g") \o <<10>> \o S("></a>"),
       S("<ab cd = 'e>f' gh=\"i'j\" ><ab/></ab>"),
       S("<a>t<b>u</b>v<b/>w<c x=''></c> </a>") \o <<10>>,
       S("<a-b.c _d1=''>]] ]></a-b.c>") >>
  [] Group = "misc" ->
    << S("<?p v?><!--c--><!DOCTYPE a [<!E a '<>'>]><a/><?q?><!--d-->"),
       S("<a><![CDATA[x]]]]><!--c-d--><?p v??></a> "),
       S("<!DOCTYPE a SYSTEM 'u'>") \o <<10>> \o S("<a>x<?p?>y<!---->z<![CDATA[]]></a>"),
       S("<?px v?> <a><?xmlp ?></a><?q wz?>") >>
  [] Group = "ns" ->
    << S("<p:a xmlns:p='u'><p:b q:c='' xmlns:q='v'/></p:a>"),
       S("<a xmlns:p='u' xmlns:q='v' p:x='' q:x='' x=''/>"),
       S("<a xmlns='u'><b xmlns='' xml:c=''/></a>"),
       S("<a xmlns:xml='http://www.w3.org/XML/1998/namespace'/>"),
       S("<a xmlns:pq='http://www.w3.org/2000/xmln'><pq:b/></a>") >>
  [] Group = "utf8" ->
    << S("<") \o Eacute \o Mei \o S(" ") \o Mei \o S("='") \o Smile \o Eacute \o S("'>") \o Smile \o S("</") \o Eacute \o Mei \o S(">"),
       S("<!--") \o Eacute \o Smile \o S("--><a><![CDATA[") \o Mei \o S("]]><?p") \o Eacute \o S(" ") \o Smile \o S("?></a>"),
       Bom \o S("<a>") \o <<237, 159, 191, 238, 128, 128, 239, 191, 189, 244, 143, 191, 191, 194, 128, 224, 160, 128, 240, 144, 128, 128>> \o S("</a>") >>
Nss == IF Group \in {"ns", "tag"} THEN {TRUE, FALSE} ELSE {Group = "misc"}

Common == {9, 10, 13, 32, 33, 34, 38, 39, 45, 46, 47, 48, 49, 58, 59, 60, 61, 62, 63, 88, 91, 93, 97, 112, 120}
Alphabet == CASE Group = "utf8" -> {0, 1, 60, 65, 127, 128, 129, 143, 144, 159, 160, 187, 190, 191, 192, 193, 194, 195, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 247, 248, 252, 254, 255}
              [] Group \in {"decl", "enc"} -> {9, 10, 13, 32, 34, 39, 45, 47, 48, 49, 50, 55, 60, 61, 62, 63, 95, 97, 110, 115, 117, 120, 195, 239}
              [] Group = "ref" -> {32, 35, 38, 39, 45, 47, 48, 49, 55, 57, 58, 59, 60, 62, 64, 65, 70, 71, 88, 96, 97, 102, 103, 120, 195}
              [] OTHER -> Common \cup {0, 1, 95, 35, 195}
Flip(b) == IF b \in 65..90 THEN b + 32 ELSE IF b \in 97..122 THEN b - 32 ELSE b
Near(b) == {Flip(b), IF b < 255 THEN b + 1 ELSE b, IF b > 0 THEN b - 1 ELSE b, (b + 128) % 256} \ {b}

VARIABLES d, p, s      \* the document, the position, the automaton there

RunOn(t, bs) == IF t.mode = "dead" THEN t ELSE Run(t, bs)

Toks == IOEnv.TOKS = "1"
Errs == IOEnv.TOKS = "2"
Want(t) == IF t.grey THEN 2 ELSE IF Accepts(t) THEN 1 ELSE 0
Emit1(e, k, t) ==
  \A w \in {Want(t)} : \A key \in {<<k[1], s.mode, k[2], t.why, t.ns>>} :
    PrintT(ToJson(IF w = 1 /\ Toks THEN [d |-> e, ns |-> t.ns, k |-> key, x |-> w, t |-> Observed(t)]
                  ELSE IF w = 0 /\ Errs THEN [d |-> e, ns |-> t.ns, k |-> key, x |-> w, e |-> ErrWant(t, e)]
                  ELSE [d |-> e, ns |-> t.ns, k |-> key, x |-> w]))

Edited(mid, from, k) ==
  LET rest == SubSeq(d, from, Len(d)) IN
  \A t \in {RunOn(RunOn(s, mid), rest)} : Emit1(SubSeq(d, 1, p) \o mid \o rest, k, t)

\* the end of input behind the inserted byte, and one byte later
Cut(b, more) ==
  LET tail == <<b>> \o SubSeq(d, p + 1, p + more) IN
  \A t \in {RunOn(s, tail)} : Emit1(SubSeq(d, 1, p) \o tail, <<IF more = 0 THEN "cut" ELSE "cut1", b>>, t)

Edits ==
  /\ \A b \in Alphabet : Edited(<<b>>, p + 1, <<"in", b>>)
  /\ \A b \in Alphabet : Cut(b, 0) /\ (p < Len(d) => Cut(b, 1))
  /\ p < Len(d) =>
       /\ Edited(<<>>, p + 2, <<"out", d[p + 1]>>)
       /\ \A b \in (Alphabet \cup Near(d[p + 1])) \ {d[p + 1]} : Edited(<<b>>, p + 2, <<"for", b>>)
       /\ Edited(<<d[p + 1]>>, p + 1, <<"twice", d[p + 1]>>)
  /\ p + 1 < Len(d) =>
       /\ Edited(<<>>, p + 3, <<"out2", d[p + 1]>>)
       /\ d[p + 1] # d[p + 2] => Edited(<<d[p + 2], d[p + 1]>>, p + 3, <<"swap", d[p + 1]>>)
       /\ Big => \A b, c \in {32, 38, 39, 45, 47, 48, 58, 60, 61, 62, 63, 93, 97} : Edited(<<b, c>>, p + 3, <<"for2", b>>)

Init == /\ d \in {Docs[i] : i \in 1..Len(Docs)} /\ p = 0 /\ \E b \in Nss : s = Init0(0, b)
        /\ Assert(Group = "enc" \/ Accepts(Parse(0, s.ns, d)), d)
Next == /\ p <= Len(d)
        /\ Edits
        /\ p' = p + 1 /\ d' = d
        /\ s' = IF p < Len(d) THEN Run(s, <<d[p + 1]>>) ELSE s
=============================================================================
