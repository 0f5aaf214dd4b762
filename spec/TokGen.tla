------------------------------- MODULE TokGen -------------------------------
(* Token lists: every combination of boundary field values, and chains of     *)
(* adjacent and nearly adjacent text tokens.                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TokFields, TLC, Json, IOUtils

Big == IOEnv.BIG = "1"
Depths == {0, 1, 2, 127, 128, 200, 254, 255}
Pres   == IF Big THEN {0, 1, 2, 31, 32, 63, 255, 256, 511} ELSE {0, 1, 32, 256, 511}
Qns    == IF Big THEN {0, 1, 2, 31, 32, 512, 1023, 1024, 2047} ELSE {0, 1, 64, 1024, 2047}
Offs   == {0, 1, 65535, 65536, 16777216, 536870911, 536870912, 1073741823}

Rows == {<<ty, dp>> : ty \in 0..15, dp \in Depths}
Cross(r) == SetToSeq({<<r[1], r[2], p, q, o>> : p \in Pres, q \in Qns, o \in Offs})

\* how a token follows the one before it
Lens == {1048575, 1, 2047, 2048, 5}
Tok(ty, dp, l, o) == <<ty, dp, l \div 2048, l % 2048, o>>
Kinds == {"next", "gap", "back", "same", "type", "depth"}
After(t, k, l) ==
  LET e == t[5] + Full(t) IN
  CASE k = "next"  -> Tok(t[1], t[2], l, e)
    [] k = "gap"   -> Tok(t[1], t[2], l, e + 1)
    [] k = "back"  -> Tok(t[1], t[2], l, e - 1)
    [] k = "same"  -> Tok(t[1], t[2], l, t[5])
    [] k = "type"  -> Tok(IF t[1] = 5 THEN 11 ELSE IF t[1] = 11 THEN 6 ELSE 5, t[2], l, e)
    [] OTHER       -> Tok(t[1], IF t[2] = 255 THEN 0 ELSE t[2] + 1, l, e)

Firsts == {Tok(ty, dp, l, o) : ty \in {5, 6, 11, 7, 4}, dp \in {0, 254, 255}, l \in {1048575, 3}, o \in {0, 1000}}
Chains(f) == {<<f, a>> : a \in {After(f, k, l) : k \in Kinds, l \in Lens}}
Chains3(f) == UNION {{<<c[1], c[2], b>> : b \in {After(c[2], k, l) : k \in Kinds, l \in {1048575, 7}}} : c \in Chains(f)}

VARIABLES i
Jobs == SetToSeq({<<"cross", r>> : r \in Rows} \cup {<<"chain", f>> : f \in Firsts})
Emit1(ts, ns) == PrintT(ToJson([ns |-> ns, toks |-> ts, w |-> [k \in 1..Len(ts) |-> Word(ts[k])],
                               idx |-> SetToSeq({N(Len(ts)), N(Len(ts) + 1), N(Len(ts) + 7), N(-1), N(-8), MaxI, MinI, P31, P32, M31})]))
Init == i = 1
\* each chain is ended by a token that belongs to no chain
Stop == <<13, 255, 0, 0, 0>>
Next == /\ i <= Len(Jobs)
        /\ LET j == Jobs[i] IN
           \A ns \in {TRUE, FALSE} :
             IF j[1] = "cross" THEN \A ts \in {Cross(j[2])} : Emit1(ts, ns)
             ELSE LET f == j[2]
                  IN \A c \in {SetToSeq(IF ns /\ ~Big THEN Chains(f) ELSE Chains3(f))} :
                     \A ts \in {FlattenSeq([k \in 1..Len(c) |-> Append(c[k], Stop)])} : Emit1(ts, ns)
        /\ i' = i + 1
=============================================================================
