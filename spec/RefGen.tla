------------------------------- MODULE RefGen --------------------------------
(* Character references digit by digit: code points that have every digit in   *)
(* every place, spelled in every way, where their value decides: as URLs of    *)
(* prefixes that collide, as parts of the reserved URLs, and as the value of   *)
(* the reference itself; and every character in the place of a digit.          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, XmlDoc, XmlObs, TLC, Json, IOUtils

Big == IOEnv.BIG = "1"
Group == IOEnv.GROUP
Toks == IOEnv.TOKS = "1"
Errs == IOEnv.TOKS = "2"

RECURSIVE HexOf(_, _)
HexOf(n, digs) == IF n < 16 THEN <<digs[n + 1]>> ELSE HexOf(n \div 16, digs) \o <<digs[(n % 16) + 1]>>
Low == S("0123456789abcdef")
Upp == S("0123456789ABCDEF")
Mix == S("0123456789aBcDeF")
Spell(c, w) ==
  CASE w = 1 -> S("&#" \o ToString(c) \o ";")
    [] w = 2 -> S("&#x") \o HexOf(c, Low) \o S(";")
    [] w = 3 -> S("&#x") \o HexOf(c, Upp) \o S(";")
    [] w = 4 -> S("&#x00") \o HexOf(c, Mix) \o S(";")
    [] w = 5 -> S("&#000" \o ToString(c) \o ";")
Ways == 1..5
Plain(c) == CASE c = 38 -> S("&amp;") [] c = 60 -> S("&lt;") [] c = 39 -> S("&apos;") [] c = 34 -> S("&quot;") [] OTHER -> Utf8(c)

\* every decimal and hexadecimal digit in every place
Places16 == {97 + 256 * h : h \in 0..15} \cup {4096 * h + 65 : h \in 0..15} \cup {65536 * h + 33 : h \in 1..16} \cup {1048576 + 16 * h + h : h \in 3..15} \cup {1052672 * h + 37 : h \in 0..1}
Places10 == {100 * h + 33 : h \in 1..9} \cup {1000 * h + 65 : h \in 1..9} \cup {10000 * h + 97 : h \in 1..9} \cup {100000 * h + 48 : h \in 1..9} \cup {1000000 + 10000 * h + 11 : h \in 0..11}
Digits == {c \in (33..126) \cup Places16 \cup Places10 : Valid(c)}
Near(c) == {x \in {c - 1, c + 1, c - 16, c + 16, c - 10, c + 10, c + 256, c - 256, c + 65536, c % 65536, c % 256, c + 100, c - 1000, c + 4096} : x # c /\ x > 32 /\ Valid(x)}

Edges == {0, 1, 8, 9, 10, 11, 12, 13, 14, 31, 32, 127, 128, 133, 55295, 55296, 56319, 56320, 57343, 57344, 65533, 65534, 65535, 65536, 131070, 131071, 131072, 1114109, 1114111, 1114112, 1114113, 2097151, 2097152, 2097217, 4194369, 16777281, 268435521}

Url1998 == S("http://www.w3.org/XML/1998/namespace")
Url2000 == S("http://www.w3.org/2000/xmlns/")
Put(u, k, t) == SubSeq(u, 1, k - 1) \o t \o SubSeq(u, k + 1, Len(u))

Q(x) == S("'") \o x \o S("'")

VARIABLES todo

RunDoc(d, b) == Run(Init0(0, b), d)
Want(t) == IF t.grey THEN 2 ELSE IF Accepts(t) THEN 1 ELSE 0
Emit2(d, k, t) ==
  \A w \in {Want(t)} :
    PrintT(ToJson(IF w = 1 /\ Toks THEN [d |-> d, ns |-> t.ns, k |-> k, x |-> w, t |-> Observed(t)]
                  ELSE IF w = 0 /\ Errs THEN [d |-> d, ns |-> t.ns, k |-> k, x |-> w, e |-> ErrWant(t, d)]
                  ELSE [d |-> d, ns |-> t.ns, k |-> k, x |-> w]))
Emit1(d, b, k) == \A t \in {RunDoc(d, b)} : Emit2(d, k, t)

\* two prefixes with one local name collide exactly if the characters are the same
Pair(x, y) == S("<r xmlns:p=") \o Q(x) \o S(" p:a='' xmlns:q=") \o Q(y) \o S(" q:a=''/>")
UrlDocs(c) ==
  \A w \in Ways :
    /\ Emit1(Pair(Spell(c, w), Plain(c)), TRUE, <<"same", w, c % 16>>)
    /\ \A v \in Ways : v > w /\ (Big \/ (c + v + w) % 4 = 0) => Emit1(Pair(S("u") \o Spell(c, v), S("u") \o Spell(c, w) ), TRUE, <<"same2", w, v>>)
    /\ \A x \in Near(c) : (Big \/ (c + x + w) % 3 = 0) => Emit1(Pair(Plain(x), Spell(c, w)), TRUE, <<"near", w, x - c>>)

ReservedDocs(k) ==
  \A u \in {Url1998, Url2000} : k <= Len(u) =>
    \A w \in Ways :
      /\ \A pre \in {"xmlns:p=", "xmlns=", "xmlns:xml="} : Emit1(S("<r " \o pre) \o Q(Put(u, k, Spell(u[k], w))) \o S("/>"), TRUE, <<"reserved", pre, w, Len(u)>>)
      /\ Emit1(S("<r xmlns:p=") \o Q(Put(u, k, Spell(u[k] + 1, w))) \o S("/>"), TRUE, <<"reserved-near", w, Len(u)>>)
      /\ w = 1 => /\ Emit1(S("<r xmlns:p=") \o Q(Put(u, k, <<u[k] - 1>>)) \o S("/>"), TRUE, <<"reserved-other", Len(u)>>)
                  /\ Emit1(S("<r xmlns:xml=") \o Q(Put(u, k, <<>>)) \o S("/>"), TRUE, <<"reserved-less", Len(u)>>)
                  /\ Emit1(S("<r xmlns:p=") \o Q(Put(u, k, <<u[k], u[k]>>)) \o S("/>"), TRUE, <<"reserved-more", Len(u)>>)

ValueDocs(c) ==
  \A w \in Ways :
    /\ Emit1(S("<r>x") \o Spell(c, w) \o S("y</r>"), c % 2 = 0, <<"text", w, c % 16>>)
    /\ Emit1(S("<r a=\"") \o Spell(c, w) \o S("\"/>"), c % 2 = 0, <<"value", w, c % 16>>)

\* any character where a digit is expected
OddDigit(b) ==
  /\ \A pre \in {"&#", "&#4", "&#x", "&#x4", "&#X", "&#x10FFF", "&#111411"} :
       /\ Emit1(S("<r>" \o pre) \o <<b>> \o S(";</r>"), b % 2 = 0, <<"digit", pre, b>>)
       /\ Emit1(S("<r a='" \o pre) \o <<b>> \o S("1;'/>"), b % 2 = 1, <<"digit1", pre, b>>)
  /\ \A post \in {"amp;", "lt;", "gt;", "quot;", "apos;"} : Emit1(S("<r>&") \o <<b>> \o S(post \o "</r>"), FALSE, <<"name", post, b>>)

Init == todo = (CASE Group = "url" -> Digits
                  [] Group = "reserved" -> 1..Len(Url1998)
                  [] Group = "value" -> Digits \cup Edges \cup {2000000 + b : b \in 33..126})
Next == \E x \in todo :
  /\ x = CHOOSE y \in todo : TRUE
  /\ todo' = todo \ {x}
  /\ CASE Group = "url" -> UrlDocs(x)
       [] Group = "reserved" -> ReservedDocs(x)
       [] Group = "value" -> IF 2000000 <= x /\ x <= 2000126 THEN OddDigit(x - 2000000) ELSE ValueDocs(x)
=============================================================================
