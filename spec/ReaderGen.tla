------------------------------ MODULE ReaderGen ------------------------------
(* Histories of readers: every operation from every cursor position of every  *)
(* window of a set of documents.                                              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, ReaderSpec, TLC, Json, IOUtils

Kind == IOEnv.KIND
Big  == IOEnv.BIG = "1"

A == <<65>>  B == <<66>>  CR == <<13>>  LF == <<10>>
E2 == <<195, 169>>  K3 == <<229, 144, 141>>  G4 == <<240, 144, 128, 128>>
Docs == IF Kind = "ascii"
        THEN {A \o B \o A, A \o CR \o LF \o B, CR \o LF, CR \o CR \o LF \o LF, <<0, 127, 1>>, A \o <<128>> \o B, <<65, 255>>, A \o B \o A \o B}
        ELSE {A \o B \o A, A \o CR \o LF \o B, CR \o LF \o CR, A \o E2 \o B, E2 \o E2, K3 \o A, A \o K3 \o E2, G4 \o A, E2 \o G4,
              A \o <<195>> \o B, <<65, 229, 144>> \o B, <<65, 240, 144, 128>>, <<128, 65>>, <<192, 128, 65>>, <<237, 160, 128, 65>>, <<224, 159, 191, 65>>, <<240, 143, 191, 191>>,
              <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<65, 255, 66>>, <<239, 191, 189, 65>>, <<239, 191, 191, 65>>, <<194, 128, 223, 191>>, <<224, 160, 128, 237, 159, 191>>,
              <<244, 143, 191, 191>>, <<0, 65, 127>>, <<239, 187, 191, 65>>}

VARIABLES d, w, st, path, n

Op(o, i, c, s) == [o |-> o, i |-> i, c |-> c, s |-> s]
Next1 == LET c == IF st.known /\ 0 <= st.o /\ st.o < w[2] THEN Decode(Kind, d, w[2], st.o) ELSE <<-1, 0>> IN c
Follow == LET c == Next1 IN
          IF c[2] = 0 THEN <<>>
          ELSE <<c[1]>> \o (IF st.o + c[2] < w[2] THEN LET e == Decode(Kind, d, w[2], st.o + c[2]) IN IF e[2] = 0 THEN <<>> ELSE <<e[1]>> ELSE <<>>)
Beyond == IF w[2] < Len(d) /\ d[w[2] + 1] < 128 THEN <<d[w[2] + 1]>> ELSE <<66>>
Skips == {65, 66, 10, 13} \cup (IF Kind = "utf8" THEN {233, 65533, 21517, 65536} ELSE {128, 255}) \cup (IF Next1[2] > 0 THEN {Next1[1]} ELSE {})
Seqs == {<<>>, Follow, Follow \o <<66>>, Follow \o Beyond, <<65, 66>>, <<13, 10>>} \cup (IF Len(Follow) = 2 THEN {<<Follow[1], 67>>, <<Follow[1]>>} ELSE {})
        \cup (IF Kind = "utf8" THEN {Follow \o <<65533>>} ELSE {<<128, 66>>, <<255>>, Follow \o <<128>>})
Ops == {Op("get", N(0), 0, <<>>)}
       \cup (IF st.known THEN {Op("skip", N(0), c, <<>>) : c \in Skips} \cup {Op("seq", N(0), 0, s) : s \in Seqs} ELSE {})
       \cup {Op(o, N(i), 0, <<>>) : o \in {"at", "long"}, i \in w[1]..Len(d)+1}
       \cup {Op(o, i, 0, <<>>) : o \in {"at", "long"}, i \in {N(-1), <<3, -1>>, M31}}
       \cup {Op("set", N(i), 0, <<>>) : i \in w[1]..w[2]+1} \cup {Op("set", N(-1), 0, <<>>), Op("set", M31, 0, <<>>), Op("set", MaxI, 0, <<>>)}

Tail3 == <<Op("off", N(0), 0, <<>>), Op("get", N(0), 0, <<>>), Op("off", N(0), 0, <<>>), Op("get", N(0), 0, <<>>)>>

Init == /\ d \in Docs
        /\ w \in {<<a, b>> : a \in 0..Len(d), b \in 0..Len(d)}
        /\ w[1] <= w[2]
        /\ st = [o |-> w[1], known |-> TRUE] /\ path = <<>> /\ n = 0
Next == \E op \in Ops :
          /\ st' = RApply(Kind, d, w[2], st, op)
          /\ path' = Append(path, op) /\ n' = n + 1 /\ UNCHANGED <<d, w>>
          /\ PrintT(ToJson([kind |-> Kind, d |-> d, off |-> N(w[1]), end |-> N(w[2]), ops |-> path \o <<op>> \o Tail3, k |-> <<op.o, Len(path), st.known, st'.known, st.o = w[2]>>]))
Small == n < IF Big THEN 8 ELSE 5
View == <<d, w, st>>
=============================================================================
