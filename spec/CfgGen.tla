-------------------------------- MODULE CfgGen --------------------------------
(* Every option applied to every configuration that a few options lead to      *)
(* (transition cover), and every constructor with every class of argument.     *)
EXTENDS Config, FiniteSets, TLC, Json, IOUtils

Big == IOEnv.BIG = "1"

\* <a><b><p:c/></b></a>: depends on namespace awareness
A == <<60,97,62,60,98,62,60,112,58,99,47,62,60,47,98,62,60,47,97,62>>
\* <?xml version='1.0' encoding='ascii'?><r><s><t><u><v/></u></t></s></r>: depends on the cache depth
B == <<60,63,120,109,108,32,118,101,114,115,105,111,110,61,39,49,46,48,39,32,101,110,99,111,100,105,110,103,61,39,97,115,99,105,105,39,63,62>>
     \o <<60,114,62,60,115,62,60,116,62,60,117,62,60,118,47,62,60,47,117,62,60,47,116,62,60,47,115,62,60,47,114,62>>
\* two line ends and <a></b>: refused in line 3
C == <<10,10,60,97,62,60,47,98,62>>
\* a line end and <x> before, <y and a line end after <a><p:b/></a>
W == <<10,60,120,62>> \o <<60,97,62,60,112,58,98,47,62,60,47,97,62>> \o <<60,121,10>>
WOff == 4
WLen == 13

Opt(o, isnil, d, off, len, b, n) == [o |-> o, nil |-> isnil, d |-> d, off |-> off, len |-> len, b |-> b, n |-> n]
DocOpt(d)  == Opt("doc", FALSE, d, N(0), N(0), FALSE, 0)
WinOpt(off, len) == Opt("win", FALSE, W, off, len, FALSE, 0)
Flag(o, b) == Opt(o, FALSE, <<>>, N(0), N(0), b, 0)
Offs == {N(0), N(1), N(WOff), N(WOff + 1), N(-1), N(Len(W) - 1), N(Len(W)), N(Len(W) + 1)} \cup Extremes
Lens == {N(WLen), N(WLen - 1), N(Len(W) - WOff), N(Len(W) - WOff + 1), N(Len(W)), N(1), N(0), N(-1)} \cup Extremes
Wins == {WinOpt(N(WOff), l) : l \in Lens} \cup {WinOpt(o, N(WLen)) : o \in Offs} \cup {WinOpt(N(0), N(Len(W))), WinOpt(N(1), N(Len(W))), WinOpt(N(1), N(Len(W) - 1)), WinOpt(N(Len(W)), N(0)), WinOpt(N(-1), N(1))}
        \cup {WinOpt(o, l) : o \in Extremes, l \in {MaxI, <<1, -1>>, N(1), MinI, <<2, 3>>, P31, P62}}
        \cup {Opt("win", FALSE, C, N(1), N(Len(C) - 1), FALSE, 0), Opt("win", FALSE, <<>>, N(0), N(0), FALSE, 0), Opt("win", TRUE, <<>>, N(0), N(0), FALSE, 0), Opt("win", TRUE, <<>>, N(0), N(1), FALSE, 0)}
Opts == {DocOpt(A), DocOpt(B), DocOpt(C), DocOpt(<<>>), Opt("doc", TRUE, <<>>, N(0), N(0), FALSE, 0)} \cup Wins
        \cup {Flag("ns", b) : b \in BOOLEAN} \cup {Flag("reuse", b) : b \in BOOLEAN}
        \cup {Opt("lc", FALSE, <<>>, N(0), N(0), FALSE, n) : n \in {3, 5}}
\* configurations from which all options are applied: with one of each kind of window
Core == {DocOpt(A), DocOpt(B), DocOpt(C), DocOpt(<<>>), Opt("doc", TRUE, <<>>, N(0), N(0), FALSE, 0), WinOpt(N(WOff), N(WLen)), WinOpt(N(1), N(Len(W) - 1)), WinOpt(N(-1), N(WLen)), WinOpt(N(WOff), N(Len(W))), WinOpt(MaxI, MaxI),
         Flag("ns", TRUE), Flag("ns", FALSE), Flag("reuse", TRUE), Opt("lc", FALSE, <<>>, N(0), N(0), FALSE, 3), Opt("lc", FALSE, <<>>, N(0), N(0), FALSE, 5)}

Docs6 == <<60, 97, 47, 62, 10, 10>>
Exps == {N(e) : e \in {0, 1, 2, 10, 20, 31, 32, 40, 61, 62, 63, 64, 65, 127, 128, 1000, -1, -2, -64}} \cup Extremes
Ctors == {[what |-> w, nil |-> b, d |-> d, a |-> <<>>, enc |-> 0] : w \in {"bytes", "nav"}, b \in BOOLEAN, d \in {Docs6, <<>>}}
         \cup {[what |-> "pilot", nil |-> b, d |-> Docs6, a |-> a, enc |-> 0] : b \in BOOLEAN, a \in {<<>>, <<N(0)>>, <<N(1)>>, <<N(1), N(0)>>}}
         \cup {[what |-> "modifier", nil |-> b, d |-> Docs6, a |-> <<>>, enc |-> 0] : b \in BOOLEAN}
         \cup {[what |-> "modenc", nil |-> FALSE, d |-> Docs6, a |-> <<>>, enc |-> e] : e \in -1..40}
         \cup {[what |-> w, nil |-> FALSE, d |-> d, a |-> <<o, e>>, enc |-> 0] : w \in {"utf8", "ascii"}, d \in {Docs6, <<65>>, <<>>}, o \in {N(k) : k \in {-1, 0, 1, 3, 5, 6, 7}} \cup Extremes, e \in {N(k) : k \in {-1, 0, 1, 5, 6, 7}} \cup Extremes}
         \cup {[what |-> w, nil |-> TRUE, d |-> <<>>, a |-> <<o, e>>, enc |-> 0] : w \in {"utf8", "ascii"}, o \in {N(0), N(1)}, e \in {N(0), N(1)}}
         \cup {[what |-> w, nil |-> FALSE, d |-> <<>>, a |-> a, enc |-> 0] : w \in {"long", "int", "obj"}, a \in {<<>>} \cup {<<e>> : e \in Exps} \cup {<<e, f>> : e \in Exps, f \in {N(3), N(63), N(-1)}}}

VARIABLES conf, path, done

\* last of a kind, to tell the configurations apart
Kind(o) == <<o.o, o.nil, Len(o.d), o.off, o.len, o.b, o.n>>

Init == conf = Conf0 /\ path = <<>> /\ done = FALSE
Next == \/ \E o \in (IF Len(path) < (IF Big THEN 5 ELSE 4) THEN Opts ELSE {}) :
             /\ conf' = ApplyOpt(conf, o) /\ path' = Append(path, o) /\ UNCHANGED done
             /\ PrintT(ToJson([opts |-> path', k |-> <<o.o, Usable(conf), Usable(conf'), conf'.ns, conf'.lc, Len(conf'.d)>>]))
        \/ /\ ~done /\ path = <<>> /\ done' = TRUE /\ UNCHANGED <<conf, path>>
           /\ \A c \in Ctors : PrintT(ToJson([ctor |-> c, k |-> <<"ctor", c.what, CtorWant(c)>>]))
Deep == \A k \in 1..Len(path) : path[k] \in Core
View == <<conf, done>>

\* the last option of each kind alone decides
LastWins ==
  LET last(S) == LET p == SelectSeq(path, LAMBDA o : o.o \in S) IN IF p = <<>> THEN <<>> ELSE <<p[Len(p)]>>
  IN conf = ConfOf(last({"doc", "win"}) \o last({"ns"}) \o last({"lc"}))
=============================================================================
