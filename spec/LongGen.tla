------------------------------- MODULE LongGen -------------------------------
(* Stretched documents: templates in which ~ is a run of n pieces (^ of n-1,  *)
(* @ of n+1), with the place that decides before, behind or within the run.   *)
(* A state is a template; n goes through all orders of magnitude and both     *)
(* sides of the powers of two. The documents are run-length encoded, and what *)
(* they mean is left to the automaton (trace validation).                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, XmlDoc, TLC, Json, IOUtils

Group == IOEnv.GROUP
Big   == IOEnv.BIG = "1"

Eacute == <<195, 169>>   Mei == <<229, 144, 141>>   Smile == <<240, 159, 152, 128>>   Letter == <<240, 144, 144, 128>>

\* <<templates, pieces, with namespaces, longest run>>
Names  == {S("a"), S("ab"), S("A"), S("_"), Eacute, Mei, Letter}
Inner  == {S("-"), S("."), S("0"), S("9"), <<194, 183>>}     \* not at the start of a name
Chars  == {S("x"), S(" "), Eacute, Mei, Smile, <<13>>, <<10>>, <<13, 10>>, S("]"), S("-"), S("?"), S(">"), S("'"), S("&lt;"), S("<"), S("0")}

Sets ==
  CASE Group = "tag" ->
    << << {"<~></~>", "<~></^>", "<~></@>", "<r><~>x</~><~b/></r>", "<~b></~b>", "<~b></~c>", "<~b></~B>", "<~b></~>", "<~></~b>", "<~bc></~cb>",
           "<r><~></~></r >", "<r><~b>x</~b ></r>", "<r><~b>x</~c></r>", "<r><~b></~b><~c></~b></r>", "<~b~></~b~>", "<~b~></~c~>", "<~b~c></~b~d>",
           "<~><~b><~></~></~b></~>", "<~><~b></~></~b>", "<~:b></~:b>", "<~:b></~:c>", "<b:~></c:~>", "<b:~></b:~>", "<b:~></b:^>", "<~:b></^:b>",
           "<~ ~='~'></~>", "<~>~</~>", "<~", "<~/", "<~></~", "<~></~>~", "</~>", "<r></r~>", "<r></~r>", "<~r></r>" }, Names, {FALSE}, 600 >>,
       << { "<b~></b~>", "<b~></c~>", "<b~b></b~c>", "<b~></b^>", "<b^></b~>", "<b^b></b~b>", "<b~ ></b~ >", "<r><b~c>x</b~c><b~d>x</b~></r>" }, Inner \cup Names, {FALSE}, 600 >>,
       << { "<r~/>", "<r~></r>", "<r></r~>", "<r~a=''/>", "<r a~=''/>", "<r a=~''/>", "<r a=''~/>", "<r a=''~b=''/>", "~<r/>", "<r/>~", "<!--c-->~<r/>", "<r><b/>~</r>", "<r>~<b/></r>", "<~r/>", "</~r>", "<r></~r>", "<r/~>", "<?p~?><r/>", "<r><?p~v?></r>" },
          {S(" "), <<10>>, <<9>>, <<13>>, <<13, 10>>, S("x"), <<194, 160>>, <<0>>, <<12>>}, {FALSE, TRUE}, 140000 >>,
       << { "~/", "~</a>", "<a>~", "<r>~</r>" }, {S("<a>"), S("<a/>"), S("</a>"), S("<a></a>"), S("<!---->"), S("<?p?>"), S("x<b/>"), S("&lt;")}, {FALSE}, 200 >> >>
  [] Group = "attr" ->
    << << { "<r ~='v'/>", "<r ~='' ~=''/>", "<r ~='' ^=''/>", "<r ^='' ~=''/>", "<r ~='' @='' ^=''/>", "<r ~b='' ~c=''/>", "<r ~b='' ~b=''/>", "<r ~b='' ~B=''/>", "<r b~='' c~=''/>", "<r b~='' c~='' b~=''/>",
            "<r b~c='' b~d=''/>", "<r b~c='' b~d='' b~c=''/>", "<r ~bc='' ~cb=''/>", "<r x='' ~b='' y='' ~b='' z=''/>", "<r ~b~='' ~c~=''/>", "<r ~b~='' ~b~=''/>", "<r ~b~c='' ~b~d=''/>",
            "<r><s ~b=''/><s ~b=''/></r>", "<r ~b=''><s ~b='' ~c=''/></r>", "<~ ~='' ~b=''/>", "<r ~/>", "<r ~ />", "<r ~'v'/>", "<r ~=v/>", "<r ~='v/>", "<r ~ = '~'/>", "<r ~='v''w'/>", "<r x='~'~='w'/>", "<r x='' ~=''y=''/>",
            "<r b='~' c='~' b='~'/>", "<r b='~' c='~' d='~'>~</r>", "<r xmlns~='u' xmlns~=''/>", "<r xmlns~b='' xmlns~c=''/>" }, Names, {FALSE, TRUE}, 600 >>,
       << { "<r b~='' c~=''/>", "<r b~='' b~=''/>", "<r b~c='' b~d=''/>", "<r b~c='' b~c=''/>", "<r b^c='' b~c=''/>", "<r b^='' b~=''/>", "<r ~=''/>" }, Inner \cup Names, {FALSE}, 600 >>,
       << { "<r b='~'/>", "<r b='~&lt;'/>", "<r b='&lt;~' c=''/>", "<r b='x' c='~' b=''/>", "<r b='~x~'/>" }, Chars, {FALSE, TRUE}, 140000 >> >>
  [] Group = "ns" ->
    << << { "<~:r xmlns:~='u'/>", "<~:r xmlns:^='u'/>", "<~:r xmlns:@='u'/>", "<~b:r xmlns:~b='u'/>", "<~b:r xmlns:~c='u'/>", "<b~:r xmlns:b~='u'/>", "<b~:r xmlns:c~='u'/>", "<~b~:r xmlns:~c~='u'/>", "<~b:r xmlns:~B='u'/>",
            "<r ~:b='' xmlns:~='u'/>", "<r ~:b='' xmlns:^='u'/>", "<r ~b:b='' xmlns:~c='u'/>", "<r ~b:b='' xmlns:~c='u' xmlns:~b='v'/>", "<r b~:b='' xmlns:c~='u'/>", "<r xmlns:~='u' ~:b='' ~:c=''/>",
            "<r xmlns:~='u'><~:b/></r>", "<r xmlns:~='u'><b/><~:b ~:c=''/></r>", "<r><b xmlns:~='u'/><~:b/></r>", "<r><b xmlns:~='u'></b><c ~:b=''/></r>", "<~:r xmlns:~='u'><~:b xmlns:~='v'/><~:c/></~:r>",
            "<r xmlns:~b='u' xmlns:~c='v'><~b:x/><~c:x/></r>", "<r xmlns:~b='u' xmlns:~c='v'><~d:x/></r>", "<r xmlns:p='u'><p:~/><p~:~/></r>", "<r xmlns:p='u' p:~='' p:~b=''/>", "<r xmlns:~='~'><~:~ ~:~b='~'>~</~:~></r>",
            "<~xml:r/>", "<xml~:r/>", "<xml:~/>", "<xmlns:~/>", "<xmlns~:r xmlns:xmlns~='u'/>", "<r xmlns:xml~='u'/>", "<r xml~:b='' />", "<r xml:~=''/>", "<r xmlns~=''/>", "<r xmlns~:b=''/>", "<r ~xmlns:b=''/>", "<r xmlns:~=''/>",
            "<:~ />", "<~:/>", "<~::b/>", "<r b:~:c='' xmlns:b='u'/>", "<r xmlns:p='u' p:~='' p:~=''/>" }, Names, {TRUE}, 600 >>,
       << { "<b~:r xmlns:b~='u'/>", "<b~:r xmlns:c~='u'/>", "<b~:r xmlns:b^='u'/>", "<b~c:r xmlns:b~d='u'/>", "<p:b~ xmlns:p='u' p:b~='' p:c~=''/>", "<p:~ xmlns:p='u'/>", "<r xmlns:b~='u' b~:x='' b^:x=''/>" }, Inner \cup Names, {TRUE}, 600 >>,
       << { "<r~xmlns:p='u' p:b=''/>", "<r xmlns:p='u'~p:b='' ~q:c=''/>", "<r xmlns:p~=~'u'><p:b~/></r>" }, {S(" "), <<10>>, S("x")}, {TRUE}, 140000 >>,
       << { "<p:r xmlns:p='u'>~<p:b/></p:r>", "<r>~<p:b/></r>", "<p:r xmlns:p='u'>~<q:b/></p:r>" }, {S("<p:b xmlns:p='u'/>"), S("<b xmlns:p='v' p:x=''></b>"), S("<b xmlns:q='' />"), S("<b xmlns:q='w'/>")}, {TRUE}, 150 >> >>
  [] Group = "url" ->
    << << { "<r xmlns:p='~' xmlns:q='~' p:a='' q:a=''/>", "<r xmlns:p='~' xmlns:q='^' p:a='' q:a=''/>", "<r xmlns:p='^' xmlns:q='~' p:a='' q:a=''/>", "<r xmlns:p='~b' xmlns:q='~c' p:a='' q:a=''/>", "<r xmlns:p='~b' xmlns:q='~b' p:a='' q:a=''/>",
            "<r xmlns:p='~b' xmlns:q='~B' p:a='' q:a=''/>", "<r xmlns:p='b~' xmlns:q='c~' p:a='' q:a=''/>", "<r xmlns:p='b~' xmlns:q='b~' p:a='' q:a=''/>", "<r xmlns:p='~b~' xmlns:q='~c~' p:a='' q:a=''/>", "<r xmlns:p='~bc' xmlns:q='~cb' p:a='' q:a=''/>",
            "<r xmlns:p='~&#98;' xmlns:q='~b' p:a='' q:a=''/>", "<r xmlns:p='~b' xmlns:q='~&#x62;' p:a='' q:a=''/>", "<r xmlns:p='&#98;~' xmlns:q='b~' p:a='' q:a=''/>", "<r xmlns:p='&#98;~' xmlns:q='c~' p:a='' q:a=''/>", "<r xmlns:p='~&#98;~' xmlns:q='~b~' p:a='' q:a=''/>",
            "<r xmlns:p='~&#99;' xmlns:q='~b' p:a='' q:a=''/>", "<r xmlns:p='~&amp;' xmlns:q='~&#38;' p:a='' q:a=''/>", "<r xmlns:p='~&lt;' xmlns:q='~&gt;' p:a='' q:a=''/>", "<r xmlns:p='~&amp;lt;' xmlns:q='~&lt;' p:a='' q:a=''/>",
            "<r xmlns:p='~b'><s xmlns:q='~b' p:a='' q:a=''/></r>", "<r xmlns:p='~b'><s xmlns:q='~c' p:a='' q:a=''/></r>", "<r xmlns:p='~b' xmlns:q='~c' xmlns:s='~b' p:a='' q:a='' s:a=''/>", "<r xmlns:p='~b' xmlns:q='~c' xmlns:s='~d' p:a='' q:a='' s:a=''/>",
            "<r xmlns:p='~b'><s xmlns:p='~c' xmlns:q='~b' p:a='' q:a=''/></r>", "<r xmlns:p='~' p:a='' a=''/>", "<r xmlns='~' xmlns:p='~' p:a='' a=''/>",
            "<r xmlns:p='u' xmlns:q='u' p:~='' q:~=''/>", "<r xmlns:p='u' xmlns:q='u' p:~b='' q:~c=''/>", "<r xmlns:p='u' xmlns:q='u' p:b~='' q:c~=''/>", "<r xmlns:p='u' xmlns:q='u' p:~='' q:^=''/>", "<r xmlns:p='u' xmlns:q='u' p:~b~='' q:~b~=''/>", "<r xmlns:p='u' xmlns:q='u' p:~b~='' q:~c~=''/>", "<r xmlns:p='u' xmlns:q='v' p:~='' q:~=''/>",
            "<r xmlns:~p='u' xmlns:~q='u' ~p:a='' ~q:a=''/>", "<r xmlns:~p='u' xmlns:~q='v' ~p:a='' ~q:a=''/>", "<r xmlns:p~='u' xmlns:q~='u' p~:a='' q~:a=''/>", "<r xmlns:~='u' xmlns:^='u' xmlns:@='v' ^:a='' @:a=''/>", "<r xmlns:~='u' xmlns:^='u' xmlns:@='v' ^:a='' ~:a=''/>",
            "<r xmlns:p='http://www.w3.org/2000/xmlns/~'/>", "<r xmlns:p='~http://www.w3.org/2000/xmlns/'/>", "<r xmlns='http://www.w3.org/XML/1998/namespace~'/>", "<r xmlns:p='~http://www.w3.org/XML/1998/namespace'/>", "<r xmlns:xml='http://www.w3.org/XML/1998/namespace~'/>", "<r xmlns:xml='~'/>", "<r xmlns:p='http://www.w3.org/XML/1998~/namespace'/>",
            "<r xmlns:p='http://www.w3.org/2000/xmlns~/'/>" }, Names \cup {S("0"), S("/"), Smile}, {TRUE}, 600 >>,
       << { "<r xmlns:p='http://www.w3.org/2000/xmlns&#~47;'/>", "<r xmlns:p='http:/&#x~2f;www.w3.org/XML/1998/namespace'/>", "<r xmlns:p='&#~117;' xmlns:q='u' p:a='' q:a=''/>", "<r xmlns:p='u&#x~76;' xmlns:q='uv' p:a='' q:a=''/>", "<r xmlns:p='u&#x~76;' xmlns:q='u&#~117;' p:a='' q:a=''/>" }, {S("0")}, {TRUE}, 600 >>,
       << { "<r xmlns:p='u' xmlns:q='v' ~ p:z='' q:z=''/>", "<r xmlns:p='u' xmlns:q='u' ~ p:z='' q:z=''/>", "<r xmlns:p='~' xmlns:q='~&amp;' p:z='' q:z=''/>", "<r xmlns:p='~' xmlns:q='~' p:z='' q:z=''/>" }, {S("&amp;"), S("&#38;"), S("&lt;")}, {TRUE}, 300 >> >>
  [] Group = "ref" ->
    << << { "<r>&#~65;</r>", "<r>&#x~41;</r>", "<r>&#~;</r>", "<r>&#x~;</r>", "<r>&#6~;</r>", "<r>&#x4~;</r>", "<r>&#~1114111;</r>", "<r>&#~1114112;</r>", "<r>&#x~10FFFF;</r>", "<r>&#x~110000;</r>", "<r>&#~55296;</r>", "<r>&#x~FFFE;</r>", "<r>&#~9;</r>",
            "<r a='&#~65;'/>", "<r a='&#x~41;'/>", "<r a='&#~;'/>", "<r a='x&#~1114112;'/>", "<r xmlns='&#~65;&#x~10FFFF;'/>", "<r>&#~65</r>", "<r>&#x~</r>", "<r>&#~x41;</r>", "<r>&#x4~1;</r>", "<r>&#1~4;</r>", "<r>&~;</r>", "<r>&#x~4G;</r>", "<r>&#~6a;</r>" },
          {S("0"), S("1"), S("9"), S("4"), S("a"), S("F"), S("-"), S(" "), S("x"), S("#")}, {FALSE}, 1200 >>,
       << { "<r>&~;</r>", "<r a='&~;'/>", "<r>&am~;</r>", "<r>&~amp;</r>", "<r>&amp~;</r>", "<r>&lt~;</r>", "<r>&quo~t;</r>", "<r>&apo~s;</r>", "<r>&gt;~</r>", "<r>~&gt;~</r>", "<r>&gt~</r>", "<r a='~&gt;~' b='&lt;'/>", "<r a='&~'/>", "<r>&</r>~" },
          {S("a"), S("p"), S("amp"), S("t"), S("s"), S(";"), S("&"), S(" "), Eacute, Smile}, {FALSE}, 600 >>,
       << { "<r>~</r>", "<r a='~'/>", "<r>~&</r>", "<r>~&foo;</r>", "<r a='~&foo;'/>", "<r>x~</r>", "<r>~]]></r>", "<r xmlns='~'/>" },
          {S("&lt;"), S("&#65;"), S("&#x10FFFF;"), S("&amp;x"), S("&#0;"), S("&quot;&apos;")}, {FALSE}, 600 >> >>
  [] Group = "text" ->
    << << { "<r>~</r>", "<r>~<b/>~</r>", "<r>~]]></r>", "<r>]~]></r>", "<r>]]~></r>", "<r>]~></r>", "<r>~></r>", "<r>~]]</r>", "<r>x~x</r>", "<r> ~ <b> ~ </b>~</r>", "<r>~&lt;~</r>", "<r>~<!---->~</r>", "<r><b/>~<![CDATA[]]>~</r>",
            "<r><![CDATA[~]]></r>", "<r><![CDATA[]~]></r>", "<r><![CDATA[]~]]></r>", "<r><![CDATA[~]]>~</r>", "<r><![CDATA[~]></r>", "<r><![CDATA[x~]]>]]></r>", "<![CDATA[~]]><r/>", "<r><![CDATA[~", "<r><![CDATA[~]", "<r><![CDATA[~]]",
            "<!--~--><r/>", "<r><!--~--></r>", "<r/><!--~-->", "<r><!--~-x--></r>", "<r><!--x~-></r>", "<r><!---~--></r>", "<r><!--~--x--></r>", "<r><!--~", "<r/><!--~-", "<r/><!--~--", "<!--~", 
            "<r><?p ~?></r>", "<?p ~?><r/>", "<r/><?p ~?>", "<r><?p x~?></r>", "<r><?p ?~?></r>", "<r><?p~?></r>", "<r><?~?></r>", "<r><?p ~", "<?p ~?", "<r/><?p ~",
            "<!DOCTYPE r[~]><r/>", "<!DOCTYPE~r><r/>", "<!DOCTYPE r~><r/>", "<!DOCTYPE r<~>><r/>", "<!DOCTYPE r ~", "<!DOCTYPE r '~'><r/>", "~<r/>", "<r/>~", "<r>~", "<r>x~<" },
          Chars, {FALSE}, 140000 >>,
       << { "<?~?><r/>", "<?~ v?><r/>", "<r><?~?></r>", "<r/><?~ ~?>", "<?~xml?><r/>", "<?xml~?><r/>", "<?XML~?><r/>", "<?x~ml?><r/>", "<r><?xml~ v?></r>", "<r/><?x~?>", "<r><?p~?~?></r>", "<!DOCTYPE ~><r/>", "<!DOCTYPE ~ SYSTEM '~'><r/>" }, Names \cup Inner, {FALSE}, 3000 >>,
       << { "<!DOCTYPE r[~]><r/>", "<!DOCTYPE r[<!E x>~]><r/>" }, {S("<>"), S("<<>>"), S("<!--c-->"), S(">"), S("<"), S("<?p?>"), S("'>'"), S("<!E a '>'>")}, {FALSE}, 400 >>,
       << { "~<r/>", "<r>~</r>", "<r/>~", "<a>x~y</a>", "<r><b>~</b>~<c/></r>" }, {S("<!--c-->"), S("<?p v?>"), S("<?p?>"), S("<![CDATA[c]]>"), S("<!DOCTYPE r>"), S("]]"), S("<b/> "), S(" <b>t</b>")}, {FALSE}, 400 >> >>
  [] Group = "decl" ->
    << << { "<?xml~version='1.0'?><r/>", "<?xml version~='1.0'?><r/>", "<?xml version=~'1.0'?><r/>", "<?xml version='1.0'~?><r/>", "<?xml version='1.0'~encoding='utf-8'?><r/>", "<?xml version='1.0' encoding~=~'utf-8'~?><r/>", "<?xml version='1.0' encoding='utf-8'~standalone='yes'?><r/>",
            "<?xml version='1.0' standalone~=~'no'~?><r/>", "<?xml version='1.0'?>~<r/>", "<?xml version='1.0' encoding='us-ascii'?>~<r>~</r>", "<?xml version='~'?><r/>", "<?xml version='1.~0'?><r/>", "<?xml version='1.0~'?><r/>", "<?xml version='~1.0'?><r/>", "<?xml version='1.0' encoding='~'?><r/>",
            "<?xml version='1.0' encoding='utf-8~'?><r/>", "<?xml version='1.0' encoding='~utf-8'?><r/>", "<?xml version='1.0' encoding='us-ascii~'?><r/>", "<?xml version='1.0' encoding='iso-8859-1~'?><r/>", "<?xml version='1.0' encoding='windows-125~'?><r/>", "<?xml version='1.0' encoding='utf-16~'?><r/>", "<?xml version='1.0' standalone='yes~'?><r/>", "<?xml version='1.0' standalone='~no'?><r/>",
            "<?xml version='1.0' ~='x'?><r/>", "<?xml version='1.0'?~><r/>", "<?xml~?><r/>", "<?~xml version='1.0'?><r/>", "~<?xml version='1.0'?><r/>", "<?xml version='1.0~", "<?xml version='1.0' encoding='utf-8'?><r>~</r>", "<?xml version='1.0' encoding='ascii'?><r a='~'/><!--~-->" },
          {S(" "), <<10>>, <<9>>, <<13>>, S("0"), S("1"), S("x"), S("utf-8"), Eacute, S("'"), S("?")}, {FALSE}, 140000 >> >>

Small == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}
Middle == {20, 23, 24, 25, 29, 31, 32, 33, 40, 47, 48, 50, 62, 63, 64, 65, 66, 80, 96, 99, 100, 101, 120, 126, 127, 128}
Large == {129, 150, 190, 192, 200, 250, 253, 254, 255, 256, 257, 258, 300, 400, 500, 510, 511, 512, 513, 600}
Huge  == {1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000}
Vast  == {4095, 4097, 8192, 10000, 16385, 20000, 32768, 40000, 65533, 65535, 65536, 65537, 70000, 100000, 131072, 140000}
Class(n) == IF n \in Small THEN 1 ELSE IF n \in Middle THEN 2 ELSE IF n \in Large THEN 3 ELSE IF n \in Huge THEN 4 ELSE 5

\* the places of the runs in a template
Rle(bs, piece, n) ==
  FoldLeft(LAMBDA acc, b :
             IF b \in {126, 94, 64} THEN LET m == IF b = 126 THEN n ELSE IF b = 94 THEN n - 1 ELSE n + 1 IN IF m = 0 THEN acc ELSE Append(acc, <<m, piece>>)
             ELSE IF acc # <<>> /\ acc[Len(acc)][1] = 0 THEN [acc EXCEPT ![Len(acc)][2] = Append(@, b)]
             ELSE Append(acc, <<0, <<b>>>>), <<>>, bs)
Doc(bs, piece, n) == [i \in DOMAIN Rle(bs, piece, n) |-> LET x == Rle(bs, piece, n)[i] IN IF x[1] = 0 THEN <<1, x[2]>> ELSE x]

VARIABLES i, t

Init == /\ i \in 1..Len(Sets)
        /\ t \in Sets[i][1]

\* which of the pieces and sizes go together is a matter of chance
Some(salt, max) == LET N == (Small \cup Middle \cup Large \cup Huge \cup Vast) \cap 1..max IN
                   IF Big THEN N ELSE {n \in N : (n * 7 + salt * 13) % 4 = 0}

Next == /\ i > 0
        /\ i' = 0 /\ t' = ""
        /\ \E ps \in {SetToSeq(Sets[i][2])} : \A j \in 1..Len(ps) : \A n \in {n \in Some(j, Sets[i][4]) : n <= 3000 \/ \A x \in 1..Len(ps[j]) : ps[j][x] < 200}, ns \in Sets[i][3] :
             PrintT(ToJson([r |-> Doc(S(t), ps[j], n), ns |-> ns, k |-> <<t, Class(n)>>]))
=============================================================================
