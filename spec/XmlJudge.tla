------------------------------ MODULE XmlJudge ------------------------------
(* What the specification says about the record of one document: the set of   *)
(* differences between what was observed and what should have been.           *)
EXTENDS Integers, Sequences, SequencesExt, XmlDoc, XmlObs, LocCache, NavTree, XmlString, TLC

Has(r, f) == f \in DOMAIN r

Doc(r) == IF Has(r, "r") THEN RunRle(Init0(r.base, r.ns), r.r) ELSE Parse(r.base, r.ns, r.d)

ElemToks(s) == SelectSeq([k \in 1..Len(s.tok) |-> <<k - 1, s.tok[k][2], s.tok[k][1]>>], LAMBDA x : x[3] = TStart)

\* the differences between what record r observed and what the spec says
Diffs(r, s) ==
  LET acc == Accepts(s)
      ok  == r.v = "ok"
      vd  == IF acc
             THEN IF ok THEN {} ELSE {<<IF r.v \in {"err", "new"} THEN "rejected" ELSE r.v, s.mode>>}
             ELSE IF ok THEN {<<"accepted", IF s.mode = "dead" THEN s.why ELSE "eof-" \o s.mode>>}
                  ELSE IF r.v = "err" THEN {} ELSE {<<r.v, IF s.mode = "dead" THEN s.why ELSE "eof-" \o s.mode>>}
      tk  == IF acc /\ ok /\ Has(r, "obstok") /\ ~SameTokens(r.obstok, Observed(s))
             THEN {<<"tokens", FirstDiff(r.obstok, Observed(s))>>} ELSE {}
      lc  == IF acc /\ ok /\ Has(r, "obslcs") /\ r.obslcs # LcOf(ElemToks(s), r.lc)
             THEN {<<"loccache", ToString(LcOf(ElemToks(s), r.lc))>>} ELSE {}
      wk  == IF acc /\ ok /\ Has(r, "obswalk")
             THEN UNION {IF r.obswalk = w THEN {} ELSE {<<"walk", ToString(FirstWalkDiff(r.obswalk, w))>>} : w \in {WalkOf(ElemToks(s), r.walk)}}
             ELSE {}
      st  == IF acc /\ ok /\ Has(r, "obsstr")
             THEN StringDiffs(s, r.d, r.base, r.obsstr, r.obsraw) ELSE {}
      rg  == IF acc /\ ok /\ Has(r, "obsrng") THEN RangeDiffs(r) ELSE {}
      sr  == IF acc /\ ok /\ Has(r, "obsstrr") THEN RunDiffs(s, r) ELSE {}
      cf  == IF acc /\ ok /\ Has(r, "obsn")
             THEN (IF r.obsn = Len(s.tok) THEN {} ELSE {<<"token-count", <<r.obsn, Len(s.tok)>>>>})
                  \cup (IF r.obscur = 0 THEN {} ELSE {<<"cursor", r.obscur>>})
             ELSE {}
      en  == IF acc /\ ok /\ Has(r, "obsenc") /\ r.obsenc # (IF s.asc THEN 0 ELSE 19)
             THEN {<<"encoding", r.obsenc>>} ELSE {}
      pr  == IF Has(r, "printed") THEN {<<"printed", "">>} ELSE {}
      mt  == IF Has(r, "mut") /\ r.mut THEN {<<"mutated", "">>} ELSE {}
      od  == IF Has(r, "odd") THEN {<<"untyped-error", r.odd[1]>>} ELSE {}
      er  == IF ~acc /\ r.v = "err" THEN ErrDiffs(s, r) ELSE {}
  IN IF s.grey THEN (IF r.v \in {"ok", "err", "new"} THEN {} ELSE {<<r.v, "grey">>}) \cup od
     ELSE vd \cup tk \cup lc \cup wk \cup st \cup rg \cup sr \cup cf \cup en \cup pr \cup mt \cup od \cup er

=============================================================================
