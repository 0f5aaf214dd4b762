------------------------------- MODULE ErrChain -------------------------------
(* Error values. An error has a kind, a text, and perhaps the error it wraps;  *)
(* the state is the sequence of errors made so far. What is asked of one: the   *)
(* error it wraps, which error of each kind is found first along the chain      *)
(* (errors.As), which errors are on the chain (errors.Is), its fields, and that *)
(* its text contains the message it was made of.                                *)
EXTENDS Integers, Sequences, SequencesExt, XmlChars

\* kinds that can wrap an error; kinds that cannot; a foreign error; a foreign wrapper
Wrapping == {"arg", "internal", "parse", "nav"}
Single   == {"encoding", "decoding", "entity", "eof", "modify"}
Kinds    == Wrapping \cup Single
Foreign  == {"plain", "wrap"}
\* a value that no constructor made
Zero     == {"zero-arg", "zero-parse", "zero-eof", "zero-entity"}
ZeroKind(k) == CASE k = "zero-arg" -> "arg" [] k = "zero-parse" -> "parse" [] k = "zero-eof" -> "eof" [] k = "zero-entity" -> "entity" [] OTHER -> k

Msgs == << S("m"), S(""), S("100% of it %s %d"), S("cannot be nil"), S("a: b: c") >>
Msg(i) == Msgs[((i * 7) % Len(Msgs)) + 1]
Par(i) == Msgs[((i * 3) % Len(Msgs)) + 1]

\* errs: sequence of [k, c (index of the wrapped error or 0), m, p]
KindOf(e) == ZeroKind(e.k)
RECURSIVE Chain(_, _)
Chain(errs, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Chain(errs, errs[i].c)

As(errs, i, kind) == LET c == SelectSeq(Chain(errs, i), LAMBDA j : KindOf(errs[j]) = kind) IN IF c = <<>> THEN 0 ELSE c[1]
Is(errs, i) == {j \in 1..Len(errs) : \E k \in 1..Len(Chain(errs, i)) : Chain(errs, i)[k] = j}

HasText(t, m) == m = <<>> \/ \E k \in 0..Len(t) - Len(m) : SubSeq(t, k + 1, k + Len(m)) = m

KindList == <<"arg", "internal", "parse", "nav", "encoding", "decoding", "entity", "eof", "modify">>

\* o: [unwrap, as (by KindList), is, text, msg, par, line] of the error with index i
ErrDiff(errs, i, o) ==
  LET e == errs[i] z == e.k \in Zero IN
     (IF o.unwrap = e.c THEN {} ELSE {<<"unwrap", <<i, o.unwrap, e.c>>>>})
     \cup {<<"as-" \o KindList[k], <<i, o.as[k], As(errs, i, KindList[k])>>>> : k \in {x \in 1..Len(KindList) : o.as[x] # As(errs, i, KindList[x])}}
     \cup (IF {o.is[k] : k \in 1..Len(o.is)} = Is(errs, i) THEN {} ELSE {<<"is", <<i, o.is>>>>})
     \cup (IF z \/ HasText(o.text, e.m) THEN {} ELSE {<<"text-without-message", <<i, e.k>>>>})
     \cup (IF e.k = "arg" /\ ~HasText(o.text, e.p) THEN {<<"text-without-parameter", i>>} ELSE {})
     \cup (IF e.k \in (Kinds \ {"internal"}) /\ o.msg # e.m THEN {<<"message", <<i, e.k>>>>} ELSE {})
     \cup (IF e.k = "arg" /\ o.par # e.p THEN {<<"parameter", i>>} ELSE {})
     \cup (IF e.k = "parse" /\ o.line # e.p THEN {<<"line-number", i>>} ELSE {})

\* laws: an error is on its own chain; what is found first is on the chain; what
\* an error finds, everything that wraps it finds unless something closer is found
ErrLaws(errs) ==
  \A i \in 1..Len(errs) :
    /\ i \in Is(errs, i) /\ As(errs, i, KindOf(errs[i])) \in {0, i}
    /\ \A k \in Kinds : As(errs, i, k) # 0 => As(errs, i, k) \in Is(errs, i) /\ KindOf(errs[As(errs, i, k)]) = k
    /\ errs[i].c # 0 => Is(errs, i) = Is(errs, errs[i].c) \cup {i} /\ \A k \in Kinds : KindOf(errs[i]) # k => As(errs, i, k) = As(errs, errs[i].c, k)
=============================================================================
