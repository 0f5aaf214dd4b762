------------------------------ MODULE TokFields ------------------------------
(* Token records: 4 bits type, 8 bits depth (255: document level), 9 bits     *)
(* prefix length, 11 bits qualified name length (for other tokens together a  *)
(* 20 bit length), 30 bits offset.                                            *)
EXTENDS Integers, Sequences, SequencesExt, Ints

\* a token is <<type, depth, pre, qn, offset>>
Word(t) == LET ty == IF t[1] > 7 THEN t[1] - 16 ELSE t[1]
           IN << ty * 268435456 + t[2] * 1048576 + t[3] * 2048 + t[4], t[5] >>

TokNames == {0, 2, 3}  TokRuns == {5, 6, 11}
Full(t) == t[3] * 2048 + t[4]

\* length of the chain of adjacent tokens from k on
RECURSIVE TokChain(_, _)
TokChain(ts, k) ==
  LET RECURSIVE go(_, _)
      go(j, l) == IF j > Len(ts) THEN l
                  ELSE IF ts[j][1] = ts[k][1] /\ ts[j][2] = ts[k][2] /\ ts[j][5] = ts[k][5] + l
                       THEN go(j + 1, l + Full(ts[j])) ELSE l
  IN go(k, 0)

TokView(ts, k, ns) ==
  LET t == ts[k] IN
  << <<0, t[1]>>, <<0, IF t[2] = 255 THEN -1 ELSE t[2]>>, <<0, t[5]>>,
     <<0, IF t[1] \in TokNames THEN (IF ns THEN t[3] * 65536 + t[4] ELSE t[4])
          ELSE IF t[1] \in TokRuns THEN TokChain(ts, k) ELSE Full(t)>> >>

TokDiffs(r) ==
  IF r.v # "ok" THEN {<<"tok", r.v>>}
  ELSE LET n    == Len(r.toks)
           bad  == {k \in 1..n : r.in[k] # TokView(r.toks, k, r.ns)}
           bado == {k \in 1..Len(r.out) : \E j \in 1..4 : r.out[k][j] # <<1, 0>>}
       IN (IF r.n # n THEN {<<"tok-size", r.n>>} ELSE {})
          \cup (IF bad = {} THEN {} ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                                         IN {<<"tok-field", <<k - 1, r.toks[k], r.in[k], TokView(r.toks, k, r.ns)>>>>})
          \cup (IF bado = {} THEN {} ELSE {<<"tok-index", r.idx[CHOOSE x \in bado : TRUE]>>})
=============================================================================
