------------------------------- MODULE WinGen -------------------------------
(* Windows of larger buffers. Every window of some documents, with the rest   *)
(* of the document around it, and truncated documents with just the bytes     *)
(* behind them that would complete them.                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, XmlDoc, TLC, Json, IOUtils

Big == IOEnv.BIG = "1"
Docs == << S("<a><b c='d'>t</b><!--x--></a>"),
           S("<?xml version='1.0' encoding='utf-8'?><a/>"),
           S("<a xmlns:p='u'><p:b p:c='&lt;'/></a><?p q?>"),
           S("<!DOCTYPE a [<!ENTITY e 'x'>]><a>]]&gt;</a><!--y-->"),
           S("<a><![CDATA[x]]>&amp;</a>") \o <<10>>,
           <<239, 187, 191>> \o S("<a>") \o <<195, 169>> \o S("</a>"),
           S("<a") \o <<10>> \o S("b='") \o <<13, 10>> \o S("'/>"),
           S("<a><a><a></a></a></a>"),
           S("<") \o <<195, 169>> \o S("><!-- --></") \o <<195, 169>> \o S(">"),
           S("<a/><b/>"), S("<a></a>]]>-->?>"), S(" <a/> "),
           S("<a>&#x41;&#65;</a>"), S("<?xml version=\"1.1\" standalone='yes' ?><a></a>"),
           S("<?xml version='1.0' encoding='us-ascii'?><a>") \o <<195, 169>> \o S("</a>"),
           S("<p:a xmlns:p='http://www.w3.org/2000/xmlns/'/>") >>

\* the windows that start at the beginning or stop at the end, and some others
Wins(n) == {<<0, j>> : j \in 1..n} \cup {<<i, n>> : i \in 0..n-1}
           \cup {<<i, j>> : i \in {x \in 1..n-1 : x % 4 = 1}, j \in {x \in 1..n-1 : x % 3 = 1}}

VARIABLE i
Shift(tok, b) == [k \in 1..Len(tok) |-> IF tok[k][1] = TDoc \/ tok[k][3] = -1 THEN tok[k] ELSE [tok[k] EXCEPT ![3] = @ + b]]

\* the specification itself only depends on the window
Lemma(w, b, ns) == LET x == Parse(b, ns, w) y == Parse(0, ns, w) IN
                   x.mode = y.mode /\ x.why = y.why /\ x.tok = Shift(y.tok, b)

Emit1(pre, d, post, ns, k) ==
  /\ Assert(Lemma(d, Len(pre), ns), <<pre, d>>)
  /\ PrintT(ToJson([pre |-> pre, d |-> d, post |-> post, ns |-> ns, base |-> Len(pre), win |-> TRUE, k |-> k]))

Pres == << S("<a>"), S("<!--"), <<195>>, <<10>>, S("<?xml version='1.0'?>") >>
Nexts == << S(">"), S("/>"), <<10>>, <<169>>, S("-->"), S("]]>"), S("?>"), S(";"), S("''>"), S("</a>"), S("<!--"), S("x") >>

Init == i = 1
Next == /\ i <= Len(Docs)
        /\ \A d \in {Docs[i]} :
           /\ \A w \in Wins(Len(d)) :
                /\ w[1] < w[2] => Emit1(SubSeq(d, 1, w[1]), SubSeq(d, w[1] + 1, w[2]), SubSeq(d, w[2] + 1, Len(d)), (w[1] + w[2] + i) % 2 = 0, <<"sub", i, w>>)
           /\ \A j \in 1..Len(d) : \A ns \in {TRUE, FALSE} :
                LET t == SubSeq(d, 1, j)
                    c == Closing(Parse(0, ns, t))
                IN c # <<>> => Emit1(Pres[(j % Len(Pres)) + 1], t, c, ns, <<"close", i, j>>)
           /\ \A j \in 1..Len(Nexts) : \A m \in {x \in 1..Len(d) : Big \/ x % 3 = j % 3} :
                Emit1(IF (j + m) % 2 = 0 THEN <<>> ELSE Pres[((j + m) % Len(Pres)) + 1], SubSeq(d, 1, m), Nexts[j], (i + j) % 2 = 0, <<"next", i, j>>)
        /\ i' = i + 1
=============================================================================
