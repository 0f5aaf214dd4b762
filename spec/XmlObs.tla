------------------------------- MODULE XmlObs -------------------------------
(* What the public interface shows of an automaton state: tokens as the       *)
(* navigator's accessors report them, and the kind of a rejection.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, XmlDoc

Names == {TStart, TAttr, TAttrNs}
Runs  == {TText, TComment, TCdata}

\* length of the chain of adjacent tokens that starts with token k
RECURSIVE ChainLen(_, _)
ChainLen(tok, k) ==
  LET t == tok[k] IN
  IF /\ k < Len(tok) /\ tok[k+1][1] = t[1] /\ tok[k+1][2] = t[2] /\ tok[k+1][3] = t[3] + t[4]
  THEN t[4] + ChainLen(tok, k + 1) ELSE t[4]

Observed1(s, k) ==
  LET t == s.tok[k] IN
  <<t[1], t[2], t[3],
    IF t[1] \in Names THEN (IF s.ns THEN t[5] * 65536 + t[4] ELSE t[4])
    ELSE IF t[1] \in Runs THEN ChainLen(s.tok, k) ELSE t[4]>>

Observed(s) == [k \in 1..Len(s.tok) |-> Observed1(s, k)]

\* offset -1: an empty processing instruction has a value token of no text
SameToken(a, e) == a[1] = e[1] /\ a[2] = e[2] /\ a[4] = e[4] /\ (a[3] = e[3] \/ e[3] = -1)
SameTokens(obs, exp) == Len(obs) = Len(exp) /\ \A k \in 1..Len(exp) : SameToken(obs[k], exp[k])

FirstDiff(obs, exp) ==
  LET n == IF Len(obs) < Len(exp) THEN Len(obs) ELSE Len(exp)
      bad == {k \in 1..n : ~SameToken(obs[k], exp[k])}
  IN IF bad = {} THEN <<"length", Len(obs), Len(exp)>>
     ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y IN <<k - 1, obs[k], exp[k]>>

-----------------------------------------------------------------------------
(* Rejections *)
RefWhy == {"ref-name", "ref-digit", "ref-char", "ref-overflow"}

\* rules that are checked for a start tag as a whole
TagWhy == {"unbound-element", "unbound-attribute", "duplicate-expanded-name"}

\* The line of the place where parsing stopped: the place is the offending
\* character (before or behind it), the start tag for rules about a whole start
\* tag, and for a mismatched end tag any place in the expected name.
ByteAt(r, k) == IF k >= 1 /\ k <= Len(r.d) THEN r.d[k] ELSE 0
\* bytes read, the last of them is the offending one
Pos(s, r) == s.pos - r.base
LineLo(s, r) == IF s.why \in TagWhy THEN s.mline ELSE s.line - (IF ByteAt(r, Pos(s, r)) = 10 THEN 1 ELSE 0)
LineHi(s, r) ==
  s.line + (IF s.why = "tag-mismatch"
            THEN Cardinality({k \in Pos(s, r)+1..Pos(s, r)+4*Len(s.stk[Len(s.stk)].n) : ByteAt(r, k) = 10})
            ELSE IF s.why = "after-lt-ex" /\ ByteAt(r, Pos(s, r) + 1) = 10 THEN 1 ELSE 0)
LineOk(s, r) == LineLo(s, r) <= r.lineno /\ r.lineno <= LineHi(s, r)

\* where a document may stop in the middle of a fixed keyword or delimiter
KeywordModes == {"dver", "dverq", "denc", "dsa", "dend", "ex-", "eex", "elt", "pie"}
InKeyword(s) == s.mode \in KeywordModes \/ (s.mode = "m" /\ s.nx # "ref")

\* rejections that may be noticed as a shortage of input: an end tag is compared
\* as a whole, a keyword is looked up ahead
EofTolerated(s, r) == \/ s.why \in {"tag-mismatch", "utf-8"}
                      \/ s.why = "prolog-text" /\ "d" \in DOMAIN r /\ r.d[s.pos - r.base] = 38
                      \/ s.why = "after-lt-ex" /\ "d" \in DOMAIN r /\ s.pos - r.base = Len(r.d)

\* rejections for which the interface documents a particular error type
ErrDiffs(s, r) ==
  LET k == {r.kinds[j] : j \in 1..Len(r.kinds)}
      dead == s.mode = "dead"
  IN (IF k \cap {"parse", "eof", "entity", "encoding", "decoding", "internal", "arg"} = {}
      THEN {<<"untyped-error", s.why>>} ELSE {})
     \cup
     (IF dead /\ s.why \in RefWhy /\ "entity" \notin k THEN {<<"no-entity-error", s.why>>} ELSE {})
     \cup
     (IF dead /\ s.why = "encoding-unsupported" /\ "encoding" \notin k THEN {<<"no-encoding-error", s.why>>} ELSE {})
     \cup
     (IF dead /\ s.why \notin (RefWhy \cup {"prolog-text"}) /\ "entity" \in k THEN {<<"wrong-entity-error", s.why>>} ELSE {})
     \cup
     (IF dead /\ s.why \notin {"encoding", "encoding-unsupported", "start", "utf-8"} /\ "encoding" \in k
      THEN {<<"wrong-encoding-error", s.why>>} ELSE {})
     \cup
     (IF dead /\ ~EofTolerated(s, r) /\ "eof" \in k THEN {<<"wrong-eof-error", s.why>>} ELSE {})
     \cup
     (IF dead /\ s.why \notin (RefWhy \cup {"encoding-unsupported", "encoding", "start", "prolog-text"}) /\ ~EofTolerated(s, r) /\ "parse" \notin k
      THEN {<<"no-parse-error", s.why>>} ELSE {})
     \cup
     (IF ~dead /\ s.un = 0 /\ k \cap ({"eof", "parse"} \cup (IF s.mode = "denc" THEN {"encoding"} ELSE {})) = {} THEN {<<"no-eof-error", s.mode>>} ELSE {})
     \cup
     (IF ~dead /\ s.un = 0 /\ ~InKeyword(s) /\ ~(s.ns /\ s.mode \in {"name", "an"}) /\ "eof" \notin k THEN {<<"parse-for-eof", s.mode>>} ELSE {})
     \cup
     (IF r.lineno > 0 /\ "d" \in DOMAIN r /\ ~LineOk(s, r)
      THEN {<<"line", <<r.lineno, s.line, s.mline, s.why>>>>} ELSE {})

\* of the combinations of kinds that occur, those that are right, and the lines
Combos == << <<"parse">>, <<"eof">>, <<"entity">>, <<"encoding">>, <<"internal", "eof">>, <<"internal", "parse">>, <<"parse", "eof">>, <<"parse", "entity">>, <<"parse", "encoding">> >>
ErrWant(s, d) ==
  LET r(c) == [d |-> d, base |-> s.base, kinds |-> Combos[c], lineno |-> 0] IN
  [kinds |-> {c \in 1..Len(Combos) : ErrDiffs(s, r(c)) = {}}, lo |-> LineLo(s, r(1)), hi |-> LineHi(s, r(1))]
=============================================================================
