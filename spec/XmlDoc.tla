------------------------------- MODULE XmlDoc -------------------------------
(* The document automaton of go-vtd-xml.                                      *)
(*                                                                            *)
(* The state describes what an XML parser that records VTD tokens knows after *)
(* having read a prefix of a document; Step is its (deterministic) transition *)
(* on one byte.  Accepts says whether the bytes read so far are a complete    *)
(* document, and tok holds the tokens such a document has.  A rejected prefix *)
(* is in mode "dead", with the rule that was broken in `why`.                 *)
(*                                                                            *)
(* Tokens are <<type, depth, offset, length, prefixLength>>.                  *)
EXTENDS Integers, Sequences, SequencesExt, XmlChars

TStart == 0   TAttr == 2   TAttrNs == 3   TVal == 4   TText == 5   TComment == 6
TPiName == 7  TPiVal == 8  TDecName == 9  TDecVal == 10 TCdata == 11 TDtd == 12
TDoc == 13

MaxTok   == 1048575      \* longest token
MaxDepth == 254          \* deepest element (the root has depth 0)
MaxPre   == 511          \* longest prefix
MaxQn    == 2047         \* longest qualified name (of names beyond that only the beginning is kept)

Xml == S("xml")   Xmlns == S("xmlns")
UrlXml   == S("http://www.w3.org/XML/1998/namespace")
UrlXmlns == S("http://www.w3.org/2000/xmlns/")

Init0(base, ns) ==
  [ ns |-> ns, asc |-> FALSE, bom |-> FALSE, base |-> base,
    mode |-> "start", why |-> "", grey |-> FALSE, pos |-> base, line |-> 1, mline |-> 1,
    un |-> 0, ua |-> 0, ul |-> 0,                    \* UTF-8 decoder
    tok |-> << <<TDoc, -1, 0, 0, 0>> >>,
    stk |-> <<>>, nsd |-> <<>>, nsb |-> 0,           \* open elements, declarations
    ep |-> FALSE, dt |-> FALSE,                      \* root closed, DOCTYPE seen
    seg |-> 0, leaf |-> FALSE, ltp |-> 0,            \* text run
    cst |-> 0,                                       \* start of comment, CDATA, PI value, DTD
    nst |-> 0, nm |-> <<>>, col |-> 0, el |-> <<>>, pf |-> FALSE, k |-> 0,
    at |-> <<>>, isns |-> 0, q |-> 0, vst |-> 0, val |-> <<>>,
    ret |-> "", acc |-> 0, dig |-> FALSE,            \* references
    m |-> <<>>, nx |-> "", z |-> 0, dk |-> 0 ]

Dead(s, why) == [s EXCEPT !.mode = "dead", !.why = why]
Mode(s, m) == [s EXCEPT !.mode = m]
Emit(s, t, d, o, l, p) == [s EXCEPT !.tok = Append(@, <<t, d, o, l, p>>)]

RECURSIVE Chunks(_, _, _, _)
Chunks(t, d, o, l) ==
  IF l <= MaxTok THEN << <<t, d, o, l, 0>> >>
  ELSE << <<t, d, o, MaxTok, 0>> >> \o Chunks(t, d, o + MaxTok, l - MaxTok)

EmitText(s, t, d, o, l) == [s EXCEPT !.tok = @ \o Chunks(t, d, o, l)]

Depth(s) == Len(s.stk) - 1

\* where markup that is no tag leads to
Resume(s) == IF s.ep THEN Mode(s, "epi")
             ELSE IF s.stk = <<>> THEN Mode(s, "pro")
             ELSE [s EXCEPT !.mode = "gap", !.seg = s.pos, !.leaf = FALSE]

-----------------------------------------------------------------------------
(* Names and namespaces *)
LastColon(nm) == IF \E i \in 1..Len(nm) : nm[i] = 58
                 THEN CHOOSE i \in 1..Len(nm) : nm[i] = 58 /\ \A j \in i+1..Len(nm) : nm[j] # 58
                 ELSE 0
PrefixOf(nm) == LET i == LastColon(nm) IN IF i = 0 THEN <<>> ELSE SubSeq(nm, 1, i - 1)
LocalOf(nm)  == LET i == LastColon(nm) IN SubSeq(nm, i + 1, Len(nm))

QName(nm) == LET i == LastColon(nm) IN
  \/ i = 0
  \/ /\ i # 1 /\ i # Len(nm)
     /\ \A j \in 1..i-1 : nm[j] # 58
     /\ NameStart(nm[i+1])

Bound(nsd, p) == \E i \in 1..Len(nsd) : nsd[i][1] = p
UriOf(nsd, p) == nsd[CHOOSE i \in 1..Len(nsd) :
                       nsd[i][1] = p /\ \A j \in i+1..Len(nsd) : nsd[j][1] # p][2]

\* prefixed attributes whose expanded names matter
PreAttrs(s) == {i \in 1..Len(s.at) : /\ s.at[i].isns = 0
                                     /\ PrefixOf(s.at[i].n) # <<>>
                                     /\ PrefixOf(s.at[i].n) # Xml}

NsVerdict(s) ==
  IF ~s.ns THEN ""
  ELSE LET pre == PrefixOf(s.el)
           pa  == PreAttrs(s)
       IN IF pre # <<>> /\ pre # Xml /\ ~Bound(s.nsd, pre) THEN "unbound-element"
          ELSE IF \E i \in pa : ~Bound(s.nsd, PrefixOf(s.at[i].n)) THEN "unbound-attribute"
          ELSE IF \E i, j \in pa : /\ i < j
                                   /\ LocalOf(s.at[i].n) = LocalOf(s.at[j].n)
                                   /\ UriOf(s.nsd, PrefixOf(s.at[i].n)) = UriOf(s.nsd, PrefixOf(s.at[j].n))
               THEN "duplicate-expanded-name"
          ELSE ""

\* '>' of a start tag
Open(s) == LET v == NsVerdict(s) IN
  IF v # "" THEN Dead(s, v)
  ELSE [s EXCEPT !.stk = Append(@, [n |-> s.el, d |-> s.nsb]), !.at = <<>>,
                 !.mode = "gap", !.seg = s.pos, !.leaf = TRUE]

\* '>' of an empty element tag
Empty(s) == LET v == NsVerdict(s) IN
  IF v # "" THEN Dead(s, v)
  ELSE LET s1 == [s EXCEPT !.at = <<>>, !.nsd = SubSeq(@, 1, s.nsb)] IN
       IF s.stk = <<>> THEN [s1 EXCEPT !.ep = TRUE, !.mode = "epi"]
       ELSE [s1 EXCEPT !.mode = "gap", !.seg = s.pos, !.leaf = FALSE]

Close1(s) == LET top == s.stk[Len(s.stk)]
                 s1  == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.nsd = SubSeq(@, 1, top.d)]
             IN IF s1.stk = <<>> THEN [s1 EXCEPT !.ep = TRUE, !.mode = "epi"]
                ELSE [s1 EXCEPT !.mode = "gap", !.seg = s.pos, !.leaf = FALSE]

\* what follows a name or a quoted value in a start tag
TagChar(s, c, needWs) ==
  IF c = 62 THEN Open(s)
  ELSE IF c = 47 THEN Mode(s, "emp")
  ELSE IF Ws(c) THEN Mode(s, "tag")
  ELSE Dead(s, "tag-char")

ElemName(s, c, b) ==
  LET ql == b - s.nst IN
  IF Len(s.stk) > MaxDepth THEN Dead(s, "depth-limit")
  ELSE IF s.ns /\ ~QName(s.nm) THEN Dead(s, "not-a-qname")
  ELSE IF s.ns /\ PrefixOf(s.nm) = Xmlns THEN Dead(s, "xmlns-element-prefix")
  ELSE IF s.col > MaxPre \/ ql > MaxQn THEN Dead(s, "name-limit")
  ELSE TagChar([Emit(s, TStart, Len(s.stk), s.nst, ql, s.col)
                  EXCEPT !.el = s.nm, !.at = <<>>, !.nsb = Len(s.nsd)], c, TRUE)

AttrKind(nm) == IF nm = Xmlns THEN 1
                ELSE IF Len(nm) > 5 /\ SubSeq(nm, 1, 5) = Xmlns /\ nm[6] = 58 THEN 2 ELSE 0

AttrName(s, c, b) ==
  LET ql == b - s.nst
      kd == AttrKind(s.nm)
  IN
  IF s.ns /\ ~QName(s.nm) THEN Dead(s, "not-a-qname")
  ELSE IF s.ns /\ kd = 2 /\ LocalOf(s.nm) = Xmlns THEN Dead(s, "xmlns-declared")
  ELSE IF \E i \in 1..Len(s.at) : s.at[i].n = s.nm THEN Dead(s, "duplicate-attribute")
  ELSE IF s.col > MaxPre \/ ql > MaxQn THEN Dead(s, "name-limit")
  ELSE LET s1 == [Emit(s, IF kd = 0 THEN TAttr ELSE TAttrNs, Len(s.stk), s.nst, ql, s.col)
                    EXCEPT !.isns = kd]
       IN IF c = 61 THEN Mode(s1, "aq")
          ELSE IF Ws(c) THEN Mode(s1, "aeq")
          ELSE Dead(s1, "attr-no-equals")

AttrEnd(s, b) ==
  LET l == b - s.vst
      p == LocalOf(s.nm)                       \* declared prefix, if isns = 2
      why == IF s.ns /\ s.isns = 2 /\ l = 0 THEN "empty-prefix-url"
             ELSE IF s.ns /\ s.isns = 2 /\ p = Xml
                  THEN IF s.val = UrlXml THEN "" ELSE "xml-prefix-url"
             ELSE IF s.ns /\ s.isns # 0 /\ s.val = UrlXml THEN "reserved-url-xml"
             ELSE IF s.ns /\ s.isns # 0 /\ s.val = UrlXmlns THEN "reserved-url-xmlns"
             ELSE IF l > MaxTok THEN "value-limit" ELSE ""
  IN IF why # "" THEN Dead(s, why)
     ELSE [Emit(s, TVal, Len(s.stk), s.vst, l, 0)
             EXCEPT !.mode = "aend",
                    !.at = Append(@, [n |-> s.nm, isns |-> s.isns]),
                    !.nsd = IF s.ns /\ s.isns = 2 /\ p # Xml THEN Append(@, <<p, s.val>>) ELSE @]

-----------------------------------------------------------------------------
(* References: the state remembers where to return to *)
Keep(s) == s.ret = "av" /\ s.ns /\ s.isns # 0
RefDone(s, v) ==
  IF ~Valid(v) THEN Dead(s, "ref-char")
  ELSE IF s.ret = "av" THEN [s EXCEPT !.mode = "av", !.val = IF Keep(s) THEN Append(@, v) ELSE @]
  ELSE [s EXCEPT !.mode = "text", !.leaf = FALSE]

RefStart(s, ret) == [s EXCEPT !.mode = "r", !.ret = ret, !.leaf = FALSE]

Lit(s, str, nx) == [s EXCEPT !.mode = "m", !.m = S(str), !.nx = nx]

\* the literal has been read completely: s.nx says what it was part of
LitDone(s) ==
  CASE s.nx = "ref"  -> RefDone(s, s.acc)
    [] s.nx = "cd"   -> [s EXCEPT !.mode = "cd", !.cst = s.pos]
    [] s.nx = "dtd"  -> IF s.dt THEN Dead(s, "second-doctype")
                        ELSE [s EXCEPT !.mode = "dt1", !.dt = TRUE, !.cst = s.pos]
    [] OTHER         -> Mode(s, s.nx)

Digit(c) == IF 48 <= c /\ c <= 57 THEN c - 48
            ELSE IF 97 <= c /\ c <= 102 THEN c - 87
            ELSE IF 65 <= c /\ c <= 70 THEN c - 55 ELSE 99

AccDigit(s, d, radix) == LET v == s.acc * radix + d IN
  IF v > 1114111 THEN Dead(s, "ref-overflow") ELSE [s EXCEPT !.acc = v]

-----------------------------------------------------------------------------
(* Text *)
TextChar(s, c, b) ==
  IF c = 60 THEN [EmitText(s, TText, Depth(s), s.seg, b - s.seg)
                    EXCEPT !.mode = "lt", !.leaf = FALSE, !.mline = s.line]
  ELSE IF c = 38 THEN RefStart(s, "text")
  ELSE IF c = 93 THEN [s EXCEPT !.mode = "tb1", !.leaf = FALSE]
  ELSE IF Valid(c) THEN [s EXCEPT !.mode = "text", !.leaf = FALSE]
  ELSE Dead(s, "char")

\* the character after '<'
LtChar(s, c, b) ==
  IF NameStart(c) THEN [s EXCEPT !.mode = "name", !.nst = b, !.nm = <<c>>, !.col = 0, !.leaf = FALSE]
  ELSE CASE c = 47 -> IF s.stk = <<>> THEN Dead(s, "end-without-start")
                      ELSE LET s1 == IF s.leaf
                                     THEN EmitText(s, TText, Depth(s), s.seg, s.ltp - s.seg)
                                     ELSE s
                           IN [s1 EXCEPT !.mode = "et", !.k = 1, !.leaf = FALSE]
         [] c = 33 -> [s EXCEPT !.mode = "ex", !.leaf = FALSE]
         [] c = 63 -> [s EXCEPT !.mode = "piq", !.pf = FALSE, !.leaf = FALSE]
         [] OTHER  -> Dead(s, "after-lt")

PiTarget(s, c, b) ==
  LET l == b - s.nst
      low == [i \in 1..Len(s.nm) |-> IF 65 <= s.nm[i] /\ s.nm[i] <= 90 THEN s.nm[i] + 32 ELSE s.nm[i]]
  IN IF s.pf /\ s.nm = Xml /\ Ws(c) THEN Mode(s, "dv")
     ELSE IF low = Xml THEN Dead(s, "pi-target-xml")
     ELSE IF l > MaxTok THEN Dead(s, "pi-limit")
     ELSE LET s1 == Emit(s, TPiName, Depth(s), s.nst, l, 0) IN
          IF c = 63 THEN Mode(s1, "pie")
          ELSE IF Ws(c) THEN [s1 EXCEPT !.mode = "pv", !.cst = s.pos]
          ELSE Dead(s1, "pi-target-char")

Lower(nm) == [i \in 1..Len(nm) |-> IF 65 <= nm[i] /\ nm[i] <= 90 THEN nm[i] + 32 ELSE nm[i]]

\* known encodings for which there is no reader (all lower or all upper case)
SingleByte == {"iso-8859-", "windows-125", "cp125", "ISO-8859-", "WINDOWS-125", "CP125"}
IsFamily(nm, f) == Len(nm) > Len(f) /\ SubSeq(nm, 1, Len(f)) = S(f)

\* end of the encoding name
DecEnc(s, b) ==
  LET e == Lower(s.nm)
      s1 == [Emit(s, TDecVal, -1, s.vst, b - s.vst, 0) EXCEPT !.mode = "da2"]
  IN IF e = S("utf-8") THEN s1
     ELSE IF e \in {S("ascii"), S("us-ascii")}
          THEN IF s.bom THEN Dead(s, "ascii-after-bom") ELSE [s1 EXCEPT !.asc = TRUE]
     ELSE IF ~s.bom /\ \E f \in SingleByte : IsFamily(s.nm, f) THEN Dead(s, "encoding-unsupported")
     ELSE Dead(s, "encoding")

DecNameLen(dk) == IF dk = 1 THEN 7 ELSE IF dk = 2 THEN 8 ELSE 10

DecNext(s, c, b, encOk, saOk) ==
  CASE c = 63 -> Mode(s, "dend")
    [] c = 101 /\ encOk -> [Lit(s, "ncoding", "deq") EXCEPT !.nst = b, !.dk = 2]
    [] c = 115 /\ saOk  -> [Lit(s, "tandalone", "deq") EXCEPT !.nst = b, !.dk = 3]
    [] OTHER -> Dead(s, "declaration")

-----------------------------------------------------------------------------
(* One character c of n bytes; s.pos is already behind it *)
CharStep(s, c, n) ==
  LET b  == s.pos - n
      md == s.mode
  IN
  IF s.asc /\ c > 127 THEN Dead(s, "not-ascii")
  ELSE IF md = "text" THEN
    IF Content(c) THEN s ELSE TextChar(s, c, b)
  ELSE IF md = "av" THEN
    IF c = s.q THEN AttrEnd(s, b)
    ELSE IF c = 38 THEN RefStart(s, "av")
    ELSE IF c = 60 THEN Dead(s, "attr-lt")
    ELSE IF ~Valid(c) THEN Dead(s, "char")
    ELSE IF s.ns /\ s.isns # 0 THEN [s EXCEPT !.val = Append(@, c), !.grey = @ \/ Ws(c)]
    ELSE s
  ELSE IF md = "name" THEN
    IF NameCh(c) THEN [s EXCEPT !.nm = IF Len(@) > MaxQn + 1 THEN @ ELSE Append(@, c), !.col = IF c = 58 THEN b - s.nst ELSE @]
    ELSE ElemName(s, c, b)
  ELSE IF md = "an" THEN
    IF NameCh(c) THEN [s EXCEPT !.nm = IF Len(@) > MaxQn + 1 THEN @ ELSE Append(@, c), !.col = IF c = 58 THEN b - s.nst ELSE @]
    ELSE AttrName(s, c, b)
  ELSE IF md = "gap" THEN
    IF Ws(c) THEN s
    ELSE IF c = 60 THEN [s EXCEPT !.mode = "lt", !.ltp = b, !.mline = s.line]
    ELSE TextChar(s, c, b)
  ELSE IF md = "lt" THEN LtChar(s, c, b)
  ELSE IF md = "et" THEN
    LET nm == s.stk[Len(s.stk)].n IN
    IF c # nm[s.k] THEN Dead(s, "tag-mismatch")
    ELSE IF s.k = Len(nm) THEN Mode(s, "et2") ELSE [s EXCEPT !.k = @ + 1]
  ELSE IF md = "cm" THEN
    IF c = 45 THEN Mode(s, "cm1") ELSE IF Valid(c) THEN s ELSE Dead(s, "char")
  ELSE IF md = "cd" THEN
    IF c = 93 THEN Mode(s, "cd1") ELSE IF Valid(c) THEN s ELSE Dead(s, "char")
  ELSE IF md = "pv" THEN
    IF c = 63 THEN Mode(s, "pvq") ELSE IF Valid(c) THEN s ELSE Dead(s, "char")
  ELSE IF md = "dtd" THEN
    IF ~Valid(c) THEN Dead(s, "char")
    ELSE IF c = 60 THEN [s EXCEPT !.z = @ + 1]
    ELSE IF c = 62 THEN
      IF s.z > 1 THEN [s EXCEPT !.z = @ - 1]
      ELSE IF b - s.cst > MaxTok THEN Dead(s, "dtd-limit")
      ELSE Mode(Emit(s, TDtd, -1, s.cst, b - s.cst, 0), "pro")
    ELSE s
  ELSE CASE
     md = "tag" -> IF Ws(c) THEN s
                   ELSE IF NameStart(c) THEN [s EXCEPT !.mode = "an", !.nst = b, !.nm = <<c>>,
                                                       !.col = 0, !.val = <<>>]
                   ELSE IF c = 47 \/ c = 62 THEN TagChar(s, c, FALSE)
                   ELSE Dead(s, "tag-char")
  [] md = "aend" -> TagChar(s, c, TRUE)
  [] md = "emp"  -> IF c = 62 THEN Empty(s) ELSE Dead(s, "empty-tag")
  [] md = "aeq"  -> IF Ws(c) THEN s ELSE IF c = 61 THEN Mode(s, "aq") ELSE Dead(s, "attr-no-equals")
  [] md = "aq"   -> IF Ws(c) THEN s
                    ELSE IF c = 34 \/ c = 39 THEN [s EXCEPT !.mode = "av", !.q = c, !.vst = s.pos, !.val = <<>>]
                    ELSE Dead(s, "attr-no-quote")
  [] md = "et2"  -> IF Ws(c) THEN s ELSE IF c = 62 THEN Close1(s) ELSE Dead(s, "end-tag-char")
  [] md = "tb1"  -> IF c = 93 THEN Mode(s, "tb2") ELSE TextChar(s, c, b)
  [] md = "tb2"  -> IF c = 93 THEN s ELSE IF c = 62 THEN Dead(s, "cdata-end-in-text") ELSE TextChar(s, c, b)
  \* markup that starts with <!
  [] md = "ex"   -> CASE c = 45 -> Mode(s, "ex-")
                      [] c = 91 /\ s.stk # <<>> -> Lit(s, "CDATA[", "cd")
                      [] c = 68 /\ s.stk = <<>> -> Lit(s, "OCTYPE", "dtd")
                      [] OTHER -> Dead(s, "after-lt-ex")
  [] md = "ex-"  -> IF c = 45 THEN [s EXCEPT !.mode = "cm", !.cst = s.pos] ELSE Dead(s, "comment-start")
  [] md = "cm1"  -> IF c = 45 THEN Mode(s, "cm2") ELSE IF Valid(c) THEN Mode(s, "cm") ELSE Dead(s, "char")
  [] md = "cm2"  -> IF c = 62 THEN Resume(EmitText(s, TComment, Depth(s), s.cst, b - 2 - s.cst))
                    ELSE Dead(s, "comment-dashes")
  [] md = "cd1"  -> IF c = 93 THEN Mode(s, "cd2") ELSE IF Valid(c) THEN Mode(s, "cd") ELSE Dead(s, "char")
  [] md = "cd2"  -> IF c = 93 THEN s
                    ELSE IF c = 62 THEN Resume(EmitText(s, TCdata, Depth(s), s.cst, b - 2 - s.cst))
                    ELSE IF Valid(c) THEN Mode(s, "cd") ELSE Dead(s, "char")
  [] md = "dt1"  -> IF Ws(c) THEN Mode(s, "dt2") ELSE Dead(s, "doctype-space")
  [] md = "dt2"  -> IF Ws(c) THEN s ELSE IF NameStart(c) THEN [s EXCEPT !.mode = "dtd", !.z = 1]
                    ELSE Dead(s, "doctype-name")
  \* processing instructions
  [] md \in {"piq", "pi0"} -> IF NameStart(c) THEN [s EXCEPT !.mode = "pin", !.nst = b, !.nm = <<c>>]
                    ELSE Dead(s, "pi-target")
  [] md = "pin"  -> IF NameCh(c) THEN [s EXCEPT !.nm = IF Len(@) < 5 THEN Append(@, c) ELSE @]
                    ELSE PiTarget(s, c, b)
  [] md = "pie"  -> IF c = 62 THEN Resume(Emit(s, TPiVal, Depth(s), -1, 0, 0)) ELSE Dead(s, "pi-end")
  [] md = "pvq"  -> IF c = 62
                    THEN IF b - 1 - s.cst > MaxTok THEN Dead(s, "pi-limit")
                         ELSE Resume(Emit(s, TPiVal, Depth(s), IF b - 1 = s.cst THEN -1 ELSE s.cst, b - 1 - s.cst, 0))
                    ELSE IF c = 63 THEN s ELSE IF Valid(c) THEN Mode(s, "pv") ELSE Dead(s, "char")
  \* references
  [] md = "r"    -> CASE c = 35  -> Mode(s, "r#")
                      [] c = 97  -> Mode(s, "ra")
                      [] c = 113 -> [Lit(s, "uot;", "ref") EXCEPT !.acc = 34]
                      [] c = 103 -> [Lit(s, "t;", "ref") EXCEPT !.acc = 62]
                      [] c = 108 -> [Lit(s, "t;", "ref") EXCEPT !.acc = 60]
                      [] OTHER   -> Dead(s, "ref-name")
  [] md = "ra"   -> CASE c = 109 -> [Lit(s, "p;", "ref") EXCEPT !.acc = 38]
                      [] c = 112 -> [Lit(s, "os;", "ref") EXCEPT !.acc = 39]
                      [] OTHER   -> Dead(s, "ref-name")
  [] md = "r#"   -> IF c = 120 THEN [s EXCEPT !.mode = "rx", !.acc = 0]
                    ELSE IF Digit(c) < 10 THEN [s EXCEPT !.mode = "rd", !.acc = Digit(c)]
                    ELSE Dead(s, "ref-digit")
  [] md = "rd"   -> IF Digit(c) < 10 THEN AccDigit(s, Digit(c), 10)
                    ELSE IF c = 59 THEN RefDone(s, s.acc) ELSE Dead(s, "ref-digit")
  [] md = "rx"   -> IF Digit(c) < 16 THEN AccDigit(s, Digit(c), 16)
                    ELSE IF c = 59 THEN RefDone(s, s.acc) ELSE Dead(s, "ref-digit")
  [] md = "m"    -> IF c # Head(s.m) THEN Dead(s, IF s.nx = "ref" THEN "ref-name" ELSE "literal")
                    ELSE IF Len(s.m) = 1 THEN LitDone([s EXCEPT !.m = <<>>])
                    ELSE [s EXCEPT !.m = Tail(@)]
  \* outside the root
  [] md = "start" -> IF c = 65279 /\ s.pos = s.base + 3 THEN [s EXCEPT !.bom = TRUE]
                     ELSE IF c = 60 THEN Mode(s, "lt0")
                     ELSE IF Ws(c) THEN Mode(s, "start2") ELSE Dead(s, "start")
  [] md = "start2" -> IF Ws(c) THEN s ELSE IF c = 60 THEN Mode(s, "lt") ELSE Dead(s, "start")
  [] md = "lt0"  -> IF c = 63 THEN [s EXCEPT !.mode = "pi0", !.pf = TRUE] ELSE LtChar(s, c, b)
  [] md = "pro"  -> IF Ws(c) THEN s ELSE IF c = 60 THEN Mode(s, "lt") ELSE Dead(s, "prolog-text")
  [] md = "epi"  -> IF Ws(c) THEN s ELSE IF c = 60 THEN Mode(s, "elt") ELSE Dead(s, "epilog-text")
  [] md = "elt"  -> IF c = 63 THEN [s EXCEPT !.mode = "piq", !.pf = FALSE]
                    ELSE IF c = 33 THEN Mode(s, "eex") ELSE Dead(s, "epilog-markup")
  [] md = "eex"  -> IF c = 45 THEN Mode(s, "ex-") ELSE Dead(s, "epilog-markup")
  \* XML declaration
  [] md = "dv"   -> IF Ws(c) THEN s
                    ELSE IF c = 118 THEN [Lit(s, "ersion", "deq") EXCEPT !.nst = b, !.dk = 1]
                    ELSE Dead(s, "declaration")
  [] md = "deq"  -> IF Ws(c) THEN s
                    ELSE IF c = 61 THEN Mode(Emit(s, TDecName, -1, s.nst, DecNameLen(s.dk), 0), "dq")
                    ELSE Dead(s, "declaration")
  [] md = "dq"   -> IF Ws(c) THEN s
                    ELSE IF c = 34 \/ c = 39
                    THEN LET s1 == [s EXCEPT !.q = c, !.vst = s.pos, !.nm = <<>>] IN
                         CASE s.dk = 1 -> Lit(s1, "1.", "dver")
                           [] s.dk = 2 -> Mode(s1, "denc")
                           [] OTHER    -> Mode(s1, "dsa")
                    ELSE Dead(s, "declaration")
  [] md = "dver" -> IF c = 48 \/ c = 49 THEN Mode(s, "dverq") ELSE Dead(s, "version")
  [] md = "dverq" -> IF c = s.q THEN Mode(Emit(s, TDecVal, -1, s.vst, 3, 0), "da1") ELSE Dead(s, "declaration")
  [] md = "denc" -> IF c = s.q THEN DecEnc(s, b)
                    ELSE IF Len(s.nm) < 16 /\ c > 32 /\ c < 127 THEN [s EXCEPT !.nm = Append(@, c)]
                    ELSE Dead(s, "encoding")
  [] md = "dsa"  -> IF c = s.q
                    THEN IF s.nm \in {S("yes"), S("no")} THEN Mode(Emit(s, TDecVal, -1, s.vst, b - s.vst, 0), "da3")
                         ELSE Dead(s, "standalone")
                    ELSE IF Append(s.nm, c) \in {S("y"), S("ye"), S("yes"), S("n"), S("no")}
                    THEN [s EXCEPT !.nm = Append(@, c)] ELSE Dead(s, "standalone")
  [] md = "da1"  -> IF Ws(c) THEN Mode(s, "dn1") ELSE DecNext(s, c, b, FALSE, FALSE)
  [] md = "dn1"  -> IF Ws(c) THEN s ELSE DecNext(s, c, b, TRUE, TRUE)
  [] md = "da2"  -> IF Ws(c) THEN Mode(s, "dn2") ELSE DecNext(s, c, b, FALSE, FALSE)
  [] md = "dn2"  -> IF Ws(c) THEN s ELSE DecNext(s, c, b, FALSE, TRUE)
  [] md = "da3"  -> IF Ws(c) THEN s ELSE DecNext(s, c, b, FALSE, FALSE)
  [] md = "dend" -> IF c = 62 THEN Mode(s, "pro") ELSE Dead(s, "declaration")

(* One byte: the UTF-8 decoder in front of CharStep *)
Step(s, x) ==
  IF s.mode = "dead" THEN s
  ELSE LET s1 == [s EXCEPT !.pos = @ + 1] IN
  IF s.un = 0 THEN
    IF x < 128 THEN CharStep(IF x = 10 THEN [s1 EXCEPT !.line = @ + 1] ELSE s1, x, 1)
    ELSE IF x < 194 \/ x > 244 THEN Dead(s1, "utf-8")
    ELSE IF x < 224 THEN [s1 EXCEPT !.un = 1, !.ul = 2, !.ua = x - 192]
    ELSE IF x < 240 THEN [s1 EXCEPT !.un = 2, !.ul = 3, !.ua = x - 224]
    ELSE [s1 EXCEPT !.un = 3, !.ul = 4, !.ua = x - 240]
  ELSE IF x < 128 \/ x > 191 THEN Dead(s1, "utf-8")
  ELSE LET c == s.ua * 64 + (x - 128) IN
    IF s.un > 1 THEN [s1 EXCEPT !.un = @ - 1, !.ua = c]
    ELSE IF \/ s.ul = 3 /\ (c < 2048 \/ (55296 <= c /\ c <= 57343))
            \/ s.ul = 4 /\ (c < 65536 \/ c > 1114111)
         THEN Dead(s1, "utf-8")
    ELSE CharStep([s1 EXCEPT !.un = 0, !.ua = 0, !.ul = 0], c, s.ul)

Run(s, bs) == FoldLeft(Step, s, bs)

Accepts(s) == s.mode = "epi" /\ s.un = 0

Parse(base, ns, bs) == Run(Init0(base, ns), bs)

(* Run-length encoded documents: <<count, bytes>> pairs.  A run that has      *)
(* become a fixed point of Step (except for the position) is jumped over.     *)
Times(s, bs, n) == FoldLeft(LAMBDA t, k : Run(t, bs), s, [k \in 1..n |-> k])

RECURSIVE RunN(_, _, _)
RunN(s, bs, n) ==
  IF n = 0 \/ s.mode = "dead" THEN s
  ELSE IF n = 1 THEN Run(s, bs)
  ELSE LET s1 == Run(s, bs) IN
       IF s1 = [s EXCEPT !.pos = @ + Len(bs)]
       THEN [s EXCEPT !.pos = @ + n * Len(bs)]
       ELSE LET k == IF n < 257 THEN n - 1 ELSE 256 IN
            IF k < 0 THEN s ELSE RunN(Times(s1, bs, k), bs, n - 1 - k)

RunRle(s, rle) == FoldLeft(LAMBDA t, r : RunN(t, r[2], r[1]), s, rle)

RleLen(rle) == FoldLeft(LAMBDA a, r : a + r[1] * Len(r[2]), 0, rle)

-----------------------------------------------------------------------------
(* A completion: some byte string that leads from a live state to acceptance  *)
(* (if namespace declarations permit).  Only used to build test documents.    *)
Piece(s) ==
  CASE s.mode = "start" \/ s.mode = "start2" \/ s.mode = "pro" -> S("<r/>")
    [] s.mode = "lt0" -> S("r/>")
    [] s.mode = "lt" -> S("r/>")
    [] s.mode = "name" -> S("/>")
    [] s.mode = "tag" -> S("/>")
    [] s.mode = "emp" -> S(">")
    [] s.mode = "an" -> S("=\"v\"/>")
    [] s.mode = "aeq" -> S("=\"v\"/>")
    [] s.mode = "aq" -> S("\"v\"/>")
    [] s.mode = "av" -> <<s.q>> \o S("/>")
    [] s.mode = "aend" -> S("/>")
    [] s.mode \in {"gap", "text", "tb1", "tb2"} -> S("</") \o Cat([i \in 1..Len(s.stk[Len(s.stk)].n) |-> Utf8(s.stk[Len(s.stk)].n[i])]) \o S(">")
    [] s.mode = "et" -> LET nm == s.stk[Len(s.stk)].n IN Cat([i \in 1..(Len(nm) - s.k + 1) |-> Utf8(nm[s.k + i - 1])]) \o S(">")
    [] s.mode = "et2" -> S(">")
    [] s.mode = "ex" -> S("---->")
    [] s.mode = "ex-" -> S("--->")
    [] s.mode = "eex" -> S("---->")
    [] s.mode = "elt" -> S("?p?>")
    [] s.mode = "cm" -> S("-->")
    [] s.mode = "cm1" -> S("->")
    [] s.mode = "cm2" -> S(">")
    [] s.mode = "cd" -> S("]]>")
    [] s.mode = "cd1" -> S("]>")
    [] s.mode = "cd2" -> S(">")
    [] s.mode = "dt1" -> S(" r>")
    [] s.mode = "dt2" -> S("r>")
    [] s.mode = "dtd" -> Rep(62, s.z)
    [] s.mode = "piq" \/ s.mode = "pi0" -> S("p?>")
    [] s.mode = "pin" -> S("x?>")
    [] s.mode = "pie" -> S(">")
    [] s.mode = "pv" -> S("?>")
    [] s.mode = "pvq" -> S(">")
    [] s.mode = "r" -> S("lt;")
    [] s.mode = "ra" -> S("mp;")
    [] s.mode = "r#" -> S("65;")
    [] s.mode = "rd" \/ s.mode = "rx" -> S(";")
    [] s.mode = "m" -> s.m
    [] s.mode = "dv" -> S("version='1.0'?>")
    [] s.mode = "deq" -> S("=")
    [] s.mode = "dq" -> S("'") \o (CASE s.dk = 1 -> S("1.0'?>") [] s.dk = 2 -> S("utf-8'?>") [] OTHER -> S("yes'?>"))
    [] s.mode = "dver" -> S("0")
    [] s.mode = "dverq" -> <<s.q>>
    [] s.mode = "denc" -> <<s.q>>
    [] s.mode = "dsa" -> <<s.q>>
    [] s.mode \in {"da1", "dn1", "da2", "dn2", "da3"} -> S("?>")
    [] s.mode = "dend" -> S(">")

RECURSIVE Complete(_, _)
Complete(s, fuel) ==
  IF fuel = 0 \/ s.mode = "dead" \/ s.mode = "epi" THEN <<>>
  ELSE LET p == IF s.un > 0 THEN Rep(128 + 32, s.un) ELSE Piece(s)
       IN p \o Complete(Run(s, p), fuel - 1)

Closing(s) == Complete(s, 12)
=============================================================================
