-------------------------------- MODULE Sched --------------------------------
(* Several users of the library at the same time. A participant constructs a  *)
(* parser, parses, obtains a navigator and uses it in five further steps; or  *)
(* it only obtains and uses a navigator of the document of another one, once  *)
(* that is parsed. Nothing a participant does changes what another one sees:  *)
(* the state of the system is the product of the participants' states, so     *)
(* every behaviour gives each participant its observation alone (view). The   *)
(* behaviours are the schedules that are replayed on the real code.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Steps == 8
P == IF IOEnv.P = "3" THEN 3 ELSE 2
Simulated == P = 3

VARIABLES pc, share, view, order
vars == <<pc, share, view, order>>

Shares == {s \in [1..P -> -1..P-2] : s[1] = -1 /\ \A i \in 2..P : s[i] = -1 \/ (s[i] + 1 < i /\ s[s[i] + 1] = -1)}

Init == /\ pc = [i \in 1..P |-> 0]
        /\ share \in Shares
        /\ view = [i \in 1..P |-> <<>>]
        /\ order = <<>>

\* what participant i observes in step k alone: a name for it
Obs(i, k) == <<IF share[i] = -1 THEN i ELSE share[i] + 1, k>>
Enabled(i) == /\ pc[i] < Steps
              /\ (share[i] # -1 /\ pc[i] = 2) => pc[share[i] + 1] >= 2

Step(i) == /\ Enabled(i)
           /\ pc' = [pc EXCEPT ![i] = @ + 1]
           /\ view' = [view EXCEPT ![i] = Append(@, Obs(i, pc[i]))]
           /\ order' = Append(order, i - 1)
           /\ UNCHANGED share
           /\ (\A j \in 1..P : pc'[j] = Steps) => PrintT(ToJson([order |-> order', share |-> [j \in 1..P |-> share[j]], k |-> <<share>>]))

Next == \E i \in 1..P : Step(i)

\* each participant's observations are those it would make alone
Alone == \A i \in 1..P : view[i] = [k \in 1..pc[i] |-> Obs(i, k - 1)]
\* nobody is blocked for ever
Progress == (\E i \in 1..P : pc[i] < Steps) => \E i \in 1..P : Enabled(i)
=============================================================================
