------------------------------- MODULE XmlGen -------------------------------
(* Test documents from the document automaton. A state is an automaton state  *)
(* reached by a path of lexemes; the VIEW forgets what is only position, so   *)
(* that breadth first search visits every control state once and takes every  *)
(* transition (lexeme) out of it: a transition cover. Each transition yields  *)
(* the truncated document (path and lexeme) and a completed one: what is      *)
(* still open is closed, and after a rejected lexeme the document goes on as  *)
(* if the fault were not there.                                               *)
EXTENDS Integers, Sequences, SequencesExt, XmlDoc, XmlObs, TLC, Json, IOUtils

Theme == IOEnv.THEME
Big   == IOEnv.BIG = "1"

L(strs) == [i \in 1..Len(strs) |-> S(strs[i])]
LF == <<10>>   CR == <<13>>   TAB == <<9>>
Eacute == <<195, 169>>
Bytes(seq) == seq

\* [lex, pre (where documents start), ns (modes), depth, attrs, len (lexemes), nm]
T ==
  CASE Theme = "core" ->
    [ lex |-> L(<<"<", ">", "/", "</", "/>", "<a", "<b>", "<b/>", "</a>", "</b>", "x", " ", "<!--", "-->", "<?p ", "?>", "<![CDATA[", "]]>",
                  "&lt;", "&", "]", " c='1'", "<!DOCTYPE a>", "=", "!", "'">>) \o <<LF, Eacute, <<0>>, <<1>>>>,
      pre |-> {<<>>}, ns |-> {TRUE, FALSE}, depth |-> 2, attrs |-> 1, len |-> IF Big THEN 6 ELSE 4, nm |-> 2 ]
  [] Theme = "tags" ->
    [ lex |-> L(<<"<", ">", "/", "a", "b", " ", "x", "=", "'", "!", "?", "-", ":">>) \o <<LF>>,
      pre |-> {<<>>}, ns |-> {FALSE}, depth |-> IF Big THEN 3 ELSE 2, attrs |-> 1, len |-> IF Big THEN 10 ELSE 7, nm |-> 2 ]
  [] Theme = "prolog" ->
    [ lex |-> L(<<"<a/>", "<a>", "</a>", "<?p?>", "<?p x?>", "<!--c-->", "<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY e 'x'>]>", " ", "x", "&lt;", "]]>",
                  "<![CDATA[x]]>", "</b>", "<", "<?xml version='1.0'?>", "<?xml?>">>) \o <<LF, <<239, 187, 191>>>>,
      pre |-> {<<>>}, ns |-> {FALSE}, depth |-> 2, attrs |-> 0, len |-> IF Big THEN 7 ELSE 5, nm |-> 5 ]
  [] Theme = "attr" ->
    [ lex |-> L(<<" ", "a", "b", "=", "'", "\"", ">", "/>", "/", "<", "&gt;", "&", "x='1'", "x=\"2\"", "x", "<e", "</e>", ":", "xmlns='u'", "-">>) \o <<LF, Eacute, <<1>>>>,
      pre |-> {S("<e")}, ns |-> {TRUE, FALSE}, depth |-> 2, attrs |-> 2, len |-> IF Big THEN 7 ELSE 5, nm |-> 2 ]
  [] Theme = "ns" ->
    [ lex |-> L(<<" xmlns:p='u'", " xmlns:q='u'", " xmlns='u'", " xmlns=''", " xmlns:p=''", " xmlns:xml='u'", " xmlns:xmlns='u'",
                  " xmlns:xml='http://www.w3.org/XML/1998/namespace'", " xmlns='http://www.w3.org/XML/1998/namespace'",
                  " xmlns:p='http://www.w3.org/XML/1998/namespace'", " xmlns='http://www.w3.org/2000/xmlns/'",
                  " xmlns:p='http://www.w3.org/2000/xmlns/'", " xmlns:xml='http://www.w3.org/2000/xmlns/'",
                  " p:a='1'", " q:a='2'", " xml:a='3'", " r:a='4'", " a='5'", ">", "/>", "<p:e", "<e", "<q:e", "<xml:e", "<xmlns:e", "<pp:e",
                  "</p:e>", "</e>", "</q:e>", "</xml:e>", "</f>",
                  " p:=''", " :p=''", " p:1=''", " p:a:b=''", " xmlns:=''", "<:e", "<p:", "<p:-e", "<p:e:f", " xmlnsx:a=''", " xmlns.p='u'", " xmln:a=''">>),
      pre |-> {S("<f")}, ns |-> {TRUE, FALSE}, depth |-> 3, attrs |-> 2, len |-> IF Big THEN 5 ELSE 4, nm |-> 4 ]
  [] Theme = "dup" ->
    [ lex |-> L(<<" p:a=''", " q:a=''", " r:a=''", " a=''", " p:b=''", " q:b=''", " pp:a=''", " xml:a=''", " p:aa=''",
                  " xmlns:p='u'", " xmlns:q='u'", " xmlns:q='v'", " xmlns:r='v'", " xmlns:q='&#117;'", " xmlns:q='u&amp;'", ">", "/>", "<e", "</e>">>),
      pre |-> {S("<e"), S("<e xmlns:p='u' xmlns:q='u'"), S("<e xmlns:p='u' xmlns:q='v'"), S("<e xmlns:p='u' xmlns:q='&#x75;' xmlns:r='uu'><e"),
               S("<e xmlns:p='u' xmlns:q='v' xmlns:r='u' xmlns:pp='u'>"), S("<e xmlns:p='u&amp;' xmlns:q='u&#38;' xmlns:r='u&#x26;' p:b=''"),
               S("<e xmlns:p='u&apos;' xmlns:q='u&#39;' xmlns:r='u&lt;' xmlns:pp='u&#x3C;'"), S("<e xmlns:p='u' xmlns:q='v'><e xmlns:p='v'"),
               S("<e xmlns='u' xmlns:p='u' xmlns:q='uv' a=''"), S("<e xmlns:p='ab' xmlns:q='ac' xmlns:r='abb' xmlns:pp='a'><e><e/>"),
               S("<e xmlns:p='u'><e xmlns:q='u'/><e xmlns:q='v'")},
      ns |-> {TRUE, FALSE}, depth |-> 3, attrs |-> 8, len |-> IF Big THEN 4 ELSE 3, nm |-> 4 ]
  [] Theme = "ref" ->
    [ lex |-> L(<<"&", "a", "m", "p", "o", "s", "q", "u", "t", "l", "g", ";", "#", "x", "0", "1", "4", "6", "9", "D7FF", "D800", "E000", "FFFE", "FFFD", "10FFFF", "110000",
                  "55295", "55296", "65534", "1114111", "1114112", "amp;", "lt;", "gt;", "apos;", "quot;", "A", "f", "G", " ", "<", ">", "]", "'", "-", "4294967361", "100000041", "18446744073709551681", "10000000000000041">>),
      pre |-> {S("<e a='")}, ns |-> {FALSE}, depth |-> 1, attrs |-> 1, len |-> IF Big THEN 8 ELSE 6, nm |-> 1 ]
  [] Theme = "reftext" ->
    [ lex |-> L(<<"&", "a", "m", "p", "o", "s", "q", "u", "t", "l", "g", ";", "#", "x", "0", "1", "4", "6", "9", "D7FF", "D800", "DFFF", "E000", "FFFE", "FFFD", "10FFFF", "110000",
                  "57343", "57344", "65535", "1114111", "1114112", "amp;", "lt;", "gt;", "apos;", "quot;", "A", "f", "G", " ", "<", ">", "]", "-", "4294967361", "100000041", "18446744073709551681", "10000000000000041">>),
      pre |-> {S("<e>")}, ns |-> {FALSE}, depth |-> 1, attrs |-> 0, len |-> IF Big THEN 8 ELSE 6, nm |-> 1 ]
  [] Theme = "decl" ->
    [ lex |-> L(<<" ", "version", "encoding", "standalone", "=", "'", "\"", "1.0", "1.1", "1.2", "1.", "2", "UTF-8", "utf-8", "ASCII", "us-ascii", "utf-16", "iso-8859-1",
                  "windows-1252", "CP1251", "yes", "no", "?", ">", "?>", "<e/>", "x", "utf8", "Y">>) \o <<LF, Eacute>>,
      pre |-> {S("<?xml")}, ns |-> {FALSE}, depth |-> 1, attrs |-> 0, len |-> IF Big THEN 22 ELSE 18, nm |-> 7 ]
  [] Theme = "declbom" ->
    [ lex |-> L(<<" ", "version='1.0'", "version=\"1.1\"", "encoding='UTF-8'", "encoding=\"ascii\"", "encoding='US-ASCII'", "encoding='iso-8859-1'", "encoding='windows-1252'", "standalone='no'",
                  "?>", "<e>", "</e>", "<?xml", "<?XML ", "<", "x", "<?p?>">>) \o <<LF, Eacute, <<239, 187, 191>>, <<239>>, <<254, 255>>, <<255, 254>>, <<239, 187>>, <<0>>>>,
      pre |-> {<<>>}, ns |-> {FALSE}, depth |-> 1, attrs |-> 0, len |-> IF Big THEN 8 ELSE 6, nm |-> 3 ]
  [] Theme = "delim" ->
    [ lex |-> L(<<"-", "--", "-->", ">", "]", "]]", "]]>", "?", "?>", "<!--", "<![CDATA[", "<?p ", "<?p", "<!DOCTYPE a", "<!DOCTYPE a [", "<", "x", " ", "<e>", "</e>", "&lt;", "&", "!", "[">>) \o <<<<1>>, <<0>>, Eacute>>,
      pre |-> {<<>>}, ns |-> {FALSE}, depth |-> 1, attrs |-> 0, len |-> IF Big THEN 10 ELSE 7, nm |-> 3 ]
  [] Theme = "delimchar" ->
    [ lex |-> L(<<"-", ">", "]", "?", "<", "!", "[", "CDATA[", "CDAT", "DOCTYPE", "DOCTYPE ", "DOCTYP", "e", "/e>", "p", " ">>),
      pre |-> {S("<e>")}, ns |-> {FALSE}, depth |-> 2, attrs |-> 0, len |-> IF Big THEN 10 ELSE 8, nm |-> 2 ]
  [] Theme = "utf8" ->
    [ lex |-> <<<<0>>, <<1>>, <<127>>, <<128>>, <<191>>, <<192>>, <<193>>, <<194>>, <<223>>, <<224>>, <<225>>, <<236>>, <<237>>, <<238>>, <<239>>, <<240>>, <<241>>, <<243>>, <<244>>, <<245>>, <<255>>,
                <<144>>, <<143>>, <<160>>, <<159>>, <<190>>, <<183>>>> \o L(<<"x", "<", ">", "'", "</", "<!--", "<?", "<![CDATA[", " ">>),
      pre |-> {S("<e>")}, ns |-> {FALSE}, depth |-> 1, attrs |-> 1, len |-> IF Big THEN 6 ELSE 4, nm |-> 2 ]
  [] Theme = "utf8attr" ->
    [ lex |-> <<<<0>>, <<1>>, <<127>>, <<128>>, <<191>>, <<193>>, <<194>>, <<223>>, <<224>>, <<237>>, <<239>>, <<240>>, <<244>>, <<245>>, <<255>>,
                <<144>>, <<143>>, <<160>>, <<159>>, <<190>>>> \o L(<<"x", "<", ">", "'", "=", " ">>),
      pre |-> {S("<e a='")}, ns |-> {TRUE}, depth |-> 1, attrs |-> 1, len |-> IF Big THEN 6 ELSE 4, nm |-> 2 ]

VARIABLES s, path, n

\* what matters for the future of a document (positions do not)
Scope(nsd) == {<<nsd[i][1], UriOf(nsd, nsd[i][1])>> : i \in 1..Len(nsd)}
InTag == {"name", "an", "tag", "emp", "aeq", "aq", "av", "aend", "r", "ra", "r#", "rd", "rx", "m"}
InName == {"name", "an", "aeq", "aq", "av", "pin", "pi0", "denc", "dsa", "r", "ra", "r#", "rd", "rx", "m"}
NmView(t) == IF t.mode \notin InName \/ t.ret = "text" THEN <<>>
             ELSE IF t.mode = "denc" THEN (IF Lower(t.nm) \in {S("utf-8"), S("ascii"), S("us-ascii"), <<>>} THEN Lower(t.nm) ELSE <<0>>)
             ELSE t.nm
AccView(t) == IF t.mode \in {"rd", "rx"} THEN <<t.acc = 0, Valid(t.acc), t.acc > 69631>> ELSE <<>>
Core(t) == << t.ns, t.asc, t.bom, t.mode, t.un, t.ua, t.ul, [i \in 1..Len(t.stk) |-> t.stk[i].n], Scope(t.nsd), t.ep, t.dt, t.leaf, NmView(t), t.pf, t.k,
              IF t.mode \in InTag /\ t.ret # "text" THEN <<{t.at[i].n : i \in 1..Len(t.at)}, t.el>> ELSE <<>>,
              IF t.mode \in InName THEN <<t.isns, t.q, t.ret>> ELSE <<>>,
              IF t.ns /\ t.mode \in {"av", "m", "r", "ra", "r#", "rd", "rx"} THEN t.val ELSE <<>>,
              AccView(t), t.m, t.nx, t.z, t.dk >>
View == Core(s)

\* k: the kind of transition, by which samples are stratified
\* x: 1 to be accepted, 0 to be refused, 2 left open; t: its tokens, e: the error
Toks == IOEnv.TOKS = "1"
Errs == IOEnv.TOKS = "2"
Want(t) == IF t.grey THEN 2 ELSE IF Accepts(t) THEN 1 ELSE 0
Emit1(d, ns, k, t) ==
  \A w \in {Want(t)} :
    PrintT(ToJson(IF w = 1 /\ Toks THEN [d |-> d, ns |-> ns, k |-> k, x |-> w, t |-> Observed(t)]
                  ELSE IF w = 0 /\ Errs THEN [d |-> d, ns |-> ns, k |-> k, x |-> w, e |-> ErrWant(t, d)]
                  ELSE [d |-> d, ns |-> ns, k |-> k, x |-> w]))

Init == /\ \E b \in T.ns : \E q \in T.pre : s = Run(Init0(0, b), q) /\ path = q
        /\ n = 0

Next == \E i \in 1..Len(T.lex) :
          LET l == T.lex[i]
              t == Run(s, l)
              p == path \o l
              k == <<s.mode, i, t.mode, t.why, Len(t.stk), Len(t.at)>>
              c == IF t.mode = "dead" THEN Closing(s) ELSE Closing(t)
          IN /\ Emit1(p, s.ns, <<0>> \o k, t)
             /\ IF c = <<>> THEN TRUE ELSE \A u \in {Run(t, c)} : Emit1(p \o c, s.ns, <<1>> \o k, u)
             /\ t.mode # "dead"
             /\ s' = t /\ path' = p /\ n' = n + 1

Small == /\ n < T.len
         /\ Len(s.stk) <= T.depth
         /\ Len(s.at) <= T.attrs
         /\ Len(NmView(s)) <= T.nm
         /\ Len(s.nsd) <= 6
         /\ s.z <= 3
=============================================================================
