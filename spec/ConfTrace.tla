------------------------------ MODULE ConfTrace -------------------------------
(* Trace validation of constructions: option sequences with what the parser    *)
(* they gave did, and constructor calls with their outcome.                    *)
EXTENDS XmlJudge, Config, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

OptDiffs(r) ==
  LET c == ConfOf(r.opts) IN
  IF ~Usable(c)
  THEN IF r.v = "new" /\ r.c = 1 THEN {} ELSE {<<"bad-arguments", <<r.v, r.c>>>>}
  ELSE IF r.v = "new" THEN {<<"good-arguments-refused", r.c>>}
       ELSE LET q == r @@ [d |-> Window(c), base |-> c.off[2], ns |-> c.ns, lc |-> c.lc] IN Diffs(q, Doc(q))

CtorDiffs(r) == IF r.v = "ok" /\ r.c \in CtorWant(r) THEN {} ELSE {<<"constructor-" \o r.what, <<r.v, r.c>>>>}

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET d == IF Has(Trace[i], "opts") THEN OptDiffs(Trace[i]) ELSE CtorDiffs(Trace[i]) IN
           IF d = {} THEN TRUE ELSE PrintT(ToJson([i |-> i, diffs |-> d]))
        /\ i' = i + 1
=============================================================================
