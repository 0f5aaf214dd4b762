------------------------------ MODULE LimitGen ------------------------------
(* Documents around every size limit, run-length encoded: a state is a family *)
(* and a size.  Where a limit decides, the documented limit is asserted of    *)
(* the automaton; everything is left to trace validation for the code.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, XmlDoc, XmlObs, TLC, Json, IOUtils

Big == IOEnv.BIG = "1"
M == MaxTok
Lens == {M - 2, M - 1, M, M + 1, M + 2, M + 6, 2 * M - 1, 2 * M, 2 * M + 1, 2 * M + 3, 3 * M - 1, 3 * M, 3 * M + 1}
        \cup (IF Big THEN {M - 3, M + 3, M + 4, M + 5, 4 * M, 4 * M + 1, 5 * M + 2, 3 * M + 2} ELSE {})
TokLens == {1, M - 1, M, M + 1, M + 2, M + 7, 2 * M + 1, 2 * M + 2} \cup (IF Big THEN {M + 3, M + 4, 2 * M, 3 * M + 3, 3 * M + 4} ELSE {})
NameLens == {2, 510, 511, 512, 513, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 6150, 65535, 65536, 65540, M + 1, M + 5}
PreLens == {1, 2, 255, 256, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 2045, 2046}
Depths == {1, 2, 3, 4, 5, 6, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 600}
Counts == {1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513} \cup (IF Big THEN {1023, 1024, 1025, 1026, 2048, 2049} ELSE {1025})
Elems == {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1022, 1023, 1024, 1025} \cup (IF Big THEN {2047, 2048, 2049, 4095, 4096, 4097} ELSE {2049})

T(str) == <<1, S(str)>>
R(n, str) == <<n, S(str)>>
B(n, bs) == <<n, bs>>

\* three letters for a number below 17576
Nm(i) == <<97 + ((i \div 676) % 26), 97 + ((i \div 26) % 26), 97 + (i % 26)>>
Seqs(f(_), n) == Cat([i \in 1..n |-> f(i)])

\* want: 1 accepted, 0 refused, 2 not stated here
Emit1(fam, size, doc, ns, want) ==
  \A s \in {RunRle(Init0(0, ns), doc)} :
    /\ Assert(want = 2 \/ (want = 1) = Accepts(s), <<fam, size, ns, s.mode, s.why>>)
    /\ PrintT(ToJson([r |-> doc, ns |-> ns, k |-> <<fam, size>>]))

Iff(p) == IF p THEN 1 ELSE 0

Both(fam, size, doc, want) == Emit1(fam, size, doc, FALSE, want) /\ Emit1(fam, size, doc, TRUE, want)

Name(n) ==
  /\ Both("element", n, <<T("<"), R(n, "a"), T("/>")>>, Iff(n <= MaxQn))
  /\ Both("element-pair", n, <<T("<r><"), R(n, "a"), T(">x</"), R(n, "a"), T("></r>")>>, Iff(n <= MaxQn))
  /\ n < 70000 => Both("element-mismatch", n, <<T("<r><"), R(n, "a"), T(">x</"), R(n - 1, "a"), T("></r>")>>, 0)
  /\ Both("attribute", n, <<T("<r "), R(n, "a"), T("='v' b='w'/>")>>, Iff(n <= MaxQn))
  /\ n < 70000 => Both("element-2byte", n, <<T("<"), B(n \div 2, <<195, 169>>), R(n % 2, "a"), T("/>")>>, Iff(n <= MaxQn))
  /\ n < 70000 => Both("attribute-3byte", n, <<T("<r "), B(n \div 3, <<229, 144, 141>>), R(n % 3, "a"), T(" ='v'><t/></r>")>>, Iff(n <= MaxQn))
  /\ n < 70000 => Both("attribute-pair", n, <<T("<r "), R(n - 1, "a"), T("b='v' "), R(n - 1, "a"), T("c=''/>")>>, Iff(n <= MaxQn))

Prefix(n) ==
  \A l \in {1, 2, MaxQn - n - 1, MaxQn - n} : l >= 1 =>
    /\ Emit1("prefix-element", n, <<T("<"), R(n, "p"), T(":"), R(l, "a"), T("/>")>>, FALSE, Iff(n <= MaxPre /\ n + l + 1 <= MaxQn))
    /\ Emit1("prefix-element", n, <<T("<"), R(n, "p"), T(":"), R(l, "a"), T(" xmlns:"), R(n, "p"), T("='u'/>")>>, TRUE, Iff(n <= MaxPre /\ n + l + 1 <= MaxQn /\ n + 6 <= MaxQn))
    /\ Emit1("prefix-attribute", n, <<T("<r "), R(n, "p"), T(":"), R(l, "a"), T("='v'/>")>>, FALSE, Iff(n <= MaxPre /\ n + l + 1 <= MaxQn))
    /\ Emit1("prefix-attribute", n, <<T("<r "), R(n, "p"), T(":"), R(l, "a"), T("='v' xmlns:"), R(n, "p"), T("='u'/>")>>, TRUE, Iff(n <= MaxPre /\ n + l + 1 <= MaxQn /\ n + 6 <= MaxQn))
    /\ Emit1("prefix-colons", n, <<T("<a:"), R(n, "p"), T(":"), R(l, "a"), T("/>")>>, FALSE, Iff(n + 2 <= MaxPre /\ n + l + 3 <= MaxQn))
    /\ Emit1("prefix-unbound", n, <<T("<r xmlns:"), R(n, "p"), T("q='u' xmlns:"), R(n, "q"), T("='w'><"), R(n, "p"), T(":"), R(l, "a"), T("/></r>")>>, TRUE, 0)

Value(n) ==
  /\ Both("value", n, <<T("<r a='"), R(n, "v"), T("'/>")>>, Iff(n <= M))
  /\ Both("value-ref", n, <<T("<r a='"), R(n - 1, "v"), T("&lt;' b=''>x</r>")>>, Iff(n + 3 <= M))
  /\ n > 30 => Both("value-2byte", n, <<T("<r a='"), R(n - 22, "a"), B(11, <<195, 169>>), T("'/>")>>, Iff(n <= M))
  /\ Emit1("nsvalue", n, <<T("<r xmlns='"), R(n, "v"), T("'/>")>>, FALSE, Iff(n <= M))
  /\ Both("pi-target", n, <<T("<?"), R(n, "p"), T("?><r/>")>>, Iff(n <= M))
  /\ Both("pi-target-value", n, <<T("<r><?"), R(n, "p"), T(" v?></r>")>>, Iff(n <= M))
  /\ Both("pi-value", n, <<T("<r><?p "), R(n, "v"), T("?></r>")>>, Iff(n <= M))
  /\ Both("pi-value-prolog", n, <<T("<?p "), R(n, "v"), T("?><r/>")>>, Iff(n <= M))
  /\ Both("pi-value-epilog", n, <<T("<r/><?p "), R(n - 1, "?"), T("x?><!--c-->")>>, Iff(n <= M))
  /\ Both("pi-target-epilog", n, <<T("<r/><?"), R(n, "p"), T("?>")>>, Iff(n <= M))
  /\ n > 1 => Both("doctype", n, <<T("<!DOCTYPE"), R(n - 1, " "), T("r><r/>")>>, Iff(n <= M))
  /\ n > 1 => Both("doctype2", n, <<T("<!DOCTYPE r"), R(n - 2, "x"), T("><r/>")>>, Iff(n <= M))

\* runs of text are divided into several tokens, at every depth
Run1(n) ==
  /\ Both("text", n, <<T("<r>"), R(n, "t"), T("</r>")>>, 1)
  /\ Both("text-deep", n, <<T("<r><a><b><c>x</c>"), R(n, "t"), T("<d/>"), R(n - M + 5, "u"), T("</b></a></r>")>>, 1)
  /\ Both("text-then", n, <<T("<r>"), R(n, "t"), T("<a/>"), T("</r><!--x-->")>>, 1)
  /\ Both("text-ref", n, <<T("<r>"), R(n - 2, "t"), T("&lt;"), R(3, "u"), T("</r>")>>, 1)
  /\ Both("text-ref2", n, <<T("<r>&#65;"), R(n - 2, "t"), T("]]"), R(3, "u"), T("<b/></r>")>>, 1)
  /\ Both("text-2byte", n, <<T("<r>"), R(n - 22, "t"), B(11, <<195, 169>>), T("x</r>")>>, 1)
  /\ Both("text-3byte", n, <<T("<r>"), R(n - 21, "t"), B(7, <<229, 144, 141>>), T("</r>")>>, 1)
  /\ Both("text-4byte", n, <<T("<r>"), R(n - 28, "t"), B(7, <<240, 159, 152, 128>>), T("</r>")>>, 1)
  /\ Both("text-space", n, <<T("<r>"), R(n, " "), T("</r>")>>, 1)
  /\ Both("text-space2", n, <<T("<r> <a/>"), R(n, " "), T("</r>")>>, 1)
  /\ Both("text-badend", n, <<T("<r>"), R(n, "t"), T("]]></r>")>>, 0)
  /\ Both("cdata", n, <<T("<r><![CDATA["), R(n, "c"), T("]]></r>")>>, 1)
  /\ Both("cdata-deep", n, <<T("<r><a><b><c><d/>x<![CDATA["), R(n, "]"), T("]]></c></b></a></r>")>>, 1)
  /\ Both("cdata-2byte", n, <<T("<r>"), T("<![CDATA["), R(n - 22, "t"), B(11, <<195, 169>>), T("]]>x</r>")>>, 1)
  /\ Both("cdata-text", n, <<T("<r>"), R(n, "t"), T("<![CDATA["), R(n, "c"), T("]]>"), R(n, "t"), T("</r>")>>, 1)
  /\ Both("cdata-twice", n, <<T("<r><![CDATA["), R(n, "c"), T("]]><![CDATA["), R(n - 1, "d"), T("]]></r>")>>, 1)
  /\ Both("comment", n, <<T("<r><!--"), R(n, "c"), T("--></r>")>>, 1)
  /\ Both("comment-prolog", n, <<T("<!--"), R(n, "c"), T("--><r/>")>>, 1)
  /\ Both("comment-epilog", n, <<T("<r/><!--"), R(n, "c"), T("-->")>>, 1)
  /\ Both("comment-deep", n, <<T("<r><a><b><!--"), R(n, "<"), T("--><c/></b></a></r>")>>, 1)
  /\ Both("comment-3byte", n, <<T("<r/><!--"), R(n - 21, "t"), B(7, <<229, 144, 141>>), T("-->")>>, 1)

Deep(n) ==
  /\ Both("depth", n, <<R(n, "<a>"), R(n, "</a>")>>, Iff(n <= 255))
  /\ Both("depth-empty", n, <<R(n - 1, "<a>"), T("<b/>"), R(n - 1, "</a>")>>, Iff(n <= 255))
  /\ Both("depth-text", n, <<R(n, "<a x='1'>"), T("t<!--c--><?p v?><![CDATA[d]]>"), R(n, "</a >")>>, Iff(n <= 255))
  /\ Both("depth-twice", n, <<T("<r>"), R(n, "<a>"), R(n, "</a>"), R(n, "<b>"), T("t"), R(n, "</b>"), T("</r>")>>, Iff(n + 1 <= 255))
  /\ Both("depth-unclosed", n, <<R(n, "<a>"), R(n - 1, "</a>")>>, 0)
  /\ Both("depth-overclosed", n, <<R(n, "<a>"), R(n + 1, "</a>")>>, 0)
  /\ n > 2 => Both("depth-mismatch", n, <<R(n - 2, "<a>"), T("<b>"), T("<a>"), R(n, "</a>")>>, 0)
  /\ n <= 256 => Emit1("depth-ns", n, <<T("<p:a xmlns:p='u'>"), R(n - 1, "<p:a xmlns:p='u'>"), T("<p:b/>"), R(n, "</p:a>")>>, TRUE, Iff(n <= 254))

Attr(n, k) ==   \* n attributes, the last one named like number k
  LET a(i) == <<32>> \o Nm(i) \o S("='v'") IN
  /\ Both("attributes", n, <<T("<r"), <<1, Seqs(a, n)>>, T("/>")>>, 1)
  /\ Both("attributes-dup", n, <<T("<r"), <<1, Seqs(a, n)>>, <<1, a(k)>>, T("/>")>>, 0)
  /\ k = 1 => Both("attributes-next", n, <<T("<r><b"), <<1, Seqs(a, n)>>, T("/><c"), <<1, a(k)>>, T(" zzz=''/><c"), <<1, a(n)>>, T("/></r>")>>, 1)

PreAttr(n, k) ==   \* prefixed attributes: n of them, then one with the expanded name of number k
  LET a(i) == S(" p:") \o Nm(i) \o S("='v'") q(i) == S(" q:") \o Nm(i) \o S("=''") IN
  /\ Emit1("prefixed", n, <<T("<r xmlns:p='u'"), <<1, Seqs(a, n)>>, T(" xmlns:q='w'"), <<1, q(k)>>, T("/>")>>, TRUE, 1)
  /\ Emit1("prefixed-dup", n, <<T("<r xmlns:p='u'"), <<1, Seqs(a, n)>>, T(" xmlns:q='u'"), <<1, q(k)>>, T("/>")>>, TRUE, 0)
  /\ Emit1("prefixed-unbound", n, <<T("<r xmlns:p='u'"), <<1, Seqs(a, n)>>, <<1, q(k)>>, T("/>")>>, TRUE, 0)

Decls(n, k) ==     \* n declarations in one element, use of number k
  LET d(i) == S(" xmlns:") \o Nm(i) \o S("='u") \o Nm(i) \o S("'") IN
  /\ Emit1("declarations", n, <<T("<r"), <<1, Seqs(d, n)>>, T("><"), <<1, Nm(k)>>, T(":e/></r>")>>, TRUE, 1)
  /\ Emit1("declarations-after", n, <<T("<r><s"), <<1, Seqs(d, n)>>, T("/><"), <<1, Nm(k)>>, T(":e/></r>")>>, TRUE, 0)
  /\ Emit1("declarations-dup", n, <<T("<r"), <<1, Seqs(d, n)>>, T("><e xmlns:q='u"), <<1, Nm(k)>>, T("' "), <<1, Nm(k)>>, T(":a='' q:a=''/></r>")>>, TRUE, 0)
  /\ Emit1("declarations-redeclared", n, <<T("<r"), <<1, Seqs(d, n)>>, T("><e xmlns:"), <<1, Nm(k)>>, T("='w' xmlns:q='u"), <<1, Nm(k)>>, T("' "), <<1, Nm(k)>>, T(":a='' q:a=''/></r>")>>, TRUE, 1)
  /\ Emit1("declarations-unknown", n, <<T("<r"), <<1, Seqs(d, n)>>, T("><"), <<1, Nm(n + 1)>>, T(":e/></r>")>>, TRUE, 0)

Count(n) ==
  /\ \A k \in {1, n, (n + 1) \div 2} : Attr(n, k)
  /\ n <= 300 => \A k \in {1, n} : PreAttr(n, k)
  /\ n <= 300 => \A k \in {1, n, (n + 1) \div 2} : Decls(n, k)

Elem(n) ==
  /\ Both("elements", n, <<T("<r>"), R(n, "<b/>"), T("</r>")>>, 1)
  /\ Both("elements2", n, <<T("<r><a>"), R(n, "<b></b>"), T("</a>t</r>")>>, 1)
  /\ Both("elements-text", n, <<T("<r>"), R(n, "<b>t</b>u"), T("</r>")>>, 1)
  /\ Emit1("elements-ns", n, <<T("<r xmlns:p='u'>"), R(n, "<p:b p:x='' xmlns:q='v'/>"), T("</r>")>>, TRUE, 1)
  /\ Both("prolog-items", n, <<R(n, "<?p?>"), T("<r/>"), R(n, "<!---->")>>, 1)

Space(n) ==
  /\ Both("space-start", n, <<R(n, " "), T("<r/>")>>, 1)
  /\ Both("space-tag", n, <<T("<r"), R(n, " "), T("a"), R(n, " "), T("="), R(n, " "), T("'v'"), R(n, " "), T("/>"), R(n, " ")>>, 1)
  /\ Both("space-end", n, <<T("<r></r"), R(n, " "), T(">"), R(n, " ")>>, 1)
  /\ Both("space-decl", n, <<T("<?xml"), R(n, " "), T("version"), R(n, " "), T("="), R(n, " "), T("'1.0'"), R(n, " "), T("?>"), R(n, " "), T("<!DOCTYPE r>"), R(n, " "), T("<r/>")>>, 1)
  /\ Both("space-pi", n, <<T("<?p"), R(n, " "), T("?><r/>")>>, Iff(n - 1 <= M))

\* n elements (or 2n, 3n) of one level in documents of all size classes: pages
\* of tokens and of every level of the location cache are filled
Classes == {0, 1024, 1025, 4096, 4097, 16384, 16385, 65536, 65537, 262144, 262145}
Tree(n) ==
  \A level \in 1..5, form \in 1..4, class \in Classes :
    LET open == R(level - 1, "<a>")
        item == CASE form = 1 -> S("<b/>") [] form = 2 -> S("<b><c/></b>") [] form = 3 -> S("<b/><b><c/><c/></b>") [] OTHER -> S("<b><c><d/></c></b>")
        body == <<T("<r>"), open, <<n, item>>, R(level - 1, "</a>"), T("<e/></r>")>>
        rest == class - RleLen(body)
    IN /\ rest >= 7 => PrintT(ToJson([r |-> body \o <<T("<!--"), R(rest - 7, "c"), T("-->")>>, k |-> <<n, class>>, n |-> n, level |-> level, ns |-> level % 2 = 0]))
       /\ class = 0 => PrintT(ToJson([r |-> body, k |-> <<n, class>>, n |-> n, level |-> level, ns |-> level % 2 = 1]))
TreeCounts == UNION {{2^e - 1, 2^e, 2^e + 1} : e \in 5..9} \cup {1023, 1025, 2047, 2049} \cup (IF Big THEN {2048, 4095, 4097} ELSE {})

VARIABLES fam, size
Sizes(f) == CASE f = "name" -> NameLens [] f = "prefix" -> PreLens [] f = "value" -> TokLens [] f = "run" -> Lens
              [] f = "depth" -> Depths [] f = "count" -> Counts [] f = "elem" -> Elems [] f = "space" -> {1, 2, 70000, M + 1, M + 2}
              [] f = "tree" -> TreeCounts
Fams == {"name", "prefix", "value", "run", "depth", "count", "elem", "space"}

Init == fam \in (IF IOEnv.FAM = "all" THEN Fams ELSE {IOEnv.FAM}) /\ size = 0
Next == /\ size = 0
        /\ size' \in Sizes(fam)
        /\ UNCHANGED fam
        /\ CASE fam = "name" -> Name(size') [] fam = "prefix" -> Prefix(size') [] fam = "value" -> Value(size')
             [] fam = "run" -> Run1(size') [] fam = "depth" -> Deep(size') [] fam = "count" -> Count(size')
             [] fam = "elem" -> Elem(size') [] fam = "space" -> Space(size') [] fam = "tree" -> Tree(size')
=============================================================================
