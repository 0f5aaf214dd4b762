------------------------------ MODULE XmlString ------------------------------
(* The string value of tokens: source text with line ends normalised, and for *)
(* text and attribute values with references replaced.                        *)
EXTENDS Integers, Sequences, SequencesExt, XmlDoc, XmlObs

HexVal(bs) == FoldLeft(LAMBDA a, c : a * 16 + Digit(c), 0, bs)
DecVal(bs) == FoldLeft(LAMBDA a, c : a * 10 + Digit(c), 0, bs)

\* the character a complete, legal reference body (between & and ;) stands for
RefChar(body) ==
  CASE body = S("amp")  -> 38
    [] body = S("lt")   -> 60
    [] body = S("gt")   -> 62
    [] body = S("apos") -> 39
    [] body = S("quot") -> 34
    [] body[2] = 120    -> HexVal(SubSeq(body, 3, Len(body)))
    [] OTHER            -> DecVal(SubSeq(body, 2, Len(body)))

\* line ends: CR LF and CR become LF; with two = TRUE each byte on its own
StrStep(refs, two, a, x) ==
  IF a.inref
  THEN IF x = 59 THEN [a EXCEPT !.out = @ \o Utf8(RefChar(a.body)), !.inref = FALSE]
       ELSE [a EXCEPT !.body = Append(@, x)]
  ELSE IF refs /\ x = 38 THEN [a EXCEPT !.inref = TRUE, !.body = <<>>, !.cr = FALSE]
  ELSE IF x = 13 THEN [a EXCEPT !.out = Append(@, 10), !.cr = TRUE]
  ELSE IF x = 10 /\ a.cr /\ ~two THEN [a EXCEPT !.cr = FALSE]
  ELSE [a EXCEPT !.out = Append(@, x), !.cr = FALSE]

StrVal(refs, two, bs) ==
  FoldLeft(LAMBDA a, x : StrStep(refs, two, a, x),
           [out |-> <<>>, inref |-> FALSE, body |-> <<>>, cr |-> FALSE], bs).out

Source(d, base, t) == IF t[4] = 0 THEN <<>> ELSE SubSeq(d, t[3] - base + 1, t[3] - base + t[4])

\* a token as extraction sees it: names with their qualified length only
Extent(s, k) ==
  LET t == s.tok[k]
      l == IF t[1] \in Runs THEN ChainLen(s.tok, k) ELSE t[4]
  IN <<t[1], t[2], t[3], l>>

StrCmp(got, refs, bs, what, k) ==
  IF got = StrVal(refs, FALSE, bs) THEN {}
  ELSE IF got = StrVal(refs, TRUE, bs) THEN {<<"crlf", what>>}
  ELSE {<<what, <<k - 1, got, StrVal(refs, FALSE, bs)>>>>}

StringDiffs(s, d, base, str, raw) ==
  IF Len(str) # Len(s.tok) \/ Len(raw) # Len(s.tok) THEN {<<"strings", Len(str)>>}
  ELSE UNION {LET e  == Extent(s, k)
                  bs == Source(d, base, e)
              IN StrCmp(str[k], e[1] \in {TText, TVal}, bs, "string", k)
                 \cup StrCmp(raw[k], FALSE, bs, "raw-string", k)
              : k \in 1..Len(s.tok)}
-----------------------------------------------------------------------------
(* Ranges of the document, given as <<offset, length>>                        *)
RangeDiffs(r) ==
  IF Len(r.obsrng) # Len(r.rng) \/ Len(r.obsrngr) # Len(r.rng) THEN {<<"strings", Len(r.rng)>>}
  ELSE UNION {LET bs == SubSeq(r.d, r.rng[k][1] - r.base + 1, r.rng[k][1] - r.base + r.rng[k][2])
              IN StrCmp(r.obsrng[k], TRUE, bs, "string-range", k) \cup StrCmp(r.obsrngr[k], FALSE, bs, "raw-range", k)
              : k \in 1..Len(r.rng)}

-----------------------------------------------------------------------------
(* The same for run-length encoded documents: strings as <<count, byte>>      *)
AddRun(out, n, x) ==
  IF n = 0 THEN out
  ELSE IF out # <<>> /\ out[Len(out)][2] = x THEN [out EXCEPT ![Len(out)][1] = @ + n]
  ELSE Append(out, <<n, x>>)

AddRuns(out, rs) == FoldLeft(LAMBDA a, r : AddRun(a, r[1], r[2]), out, rs)
AddBytes(out, bs) == FoldLeft(LAMBDA a, x : AddRun(a, 1, x), out, bs)

\* n bytes of the document from offset lo
SliceRuns(rle, lo, n) ==
  FoldLeft(LAMBDA a, r :
             LET l  == r[1] * Len(r[2])
                 x  == IF lo > a.p THEN lo - a.p ELSE 0
                 y  == IF lo + n < a.p + l THEN lo + n - a.p ELSE l
             IN [p |-> a.p + l,
                 out |-> IF y <= x THEN a.out
                         ELSE IF Len(r[2]) = 1 THEN AddRun(a.out, y - x, r[2][1])
                         ELSE AddBytes(a.out, [k \in 1..(y - x) |-> r[2][((x + k - 1) % Len(r[2])) + 1]])],
           [p |-> 0, out |-> <<>>], rle).out

\* line ends and references as in StrStep, a run at a time
StrRuns(refs, two, rs) ==
  FoldLeft(LAMBDA a, r :
             IF a.inref THEN IF r[2] = 59 THEN [a EXCEPT !.out = AddRun(AddBytes(@, Utf8(RefChar(a.body))), r[1] - 1, 59), !.inref = FALSE]
                             ELSE [a EXCEPT !.body = @ \o Rep(r[2], r[1])]
             ELSE IF refs /\ r[2] = 38 THEN [a EXCEPT !.inref = TRUE, !.body = <<>>, !.cr = FALSE]
             ELSE IF r[2] = 13 THEN [a EXCEPT !.out = AddRun(@, r[1], 10), !.cr = TRUE]
             ELSE [a EXCEPT !.out = AddRun(@, IF r[2] = 10 /\ a.cr /\ ~two THEN r[1] - 1 ELSE r[1], r[2]), !.cr = FALSE],
           [out |-> <<>>, inref |-> FALSE, body |-> <<>>, cr |-> FALSE], rs).out

RunCmp(got, refs, bs, what, k) ==
  IF got = StrRuns(refs, FALSE, bs) THEN {}
  ELSE IF got = StrRuns(refs, TRUE, bs) THEN {<<"crlf", what>>}
  ELSE {<<what, <<k - 1, got, StrRuns(refs, FALSE, bs)>>>>}

RunDiffs(s, r) ==
  IF Len(r.obsstrr) # Len(s.tok) \/ Len(r.obsrawr) # Len(s.tok) THEN {<<"strings", Len(r.obsstrr)>>}
  ELSE UNION {LET e  == Extent(s, k)
                  bs == IF e[4] = 0 THEN <<>> ELSE SliceRuns(r.r, e[3], e[4])
              IN RunCmp(r.obsstrr[k], e[1] \in {TText, TVal}, bs, "string", k)
                 \cup RunCmp(r.obsrawr[k], FALSE, bs, "raw-string", k)
              : k \in 1..Len(s.tok)}
=============================================================================
