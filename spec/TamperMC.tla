--------------------------------- MODULE TamperMC --------------------------------
(* Instances of Tamper.tla, and export of their behaviours. *)
EXTENDS Tamper, Json, IOUtils, CSV

A == "a"
B == "b"
S1 == <<1>>
S2 == <<2>>
L1 == <<1, 2, 1>>    \* values of three symbols take two lines
L2 == <<2, 1, 1>>
W(o, c, k, v) == [op |-> o, cred |-> c, k |-> k, v |-> v]
Srch(c, K) == [op |-> "search", cred |-> c, kws |-> K]
Cpt == [op |-> "compact", cred |-> 1, new |-> 3]
Keys == (1 :> 1) @@ (2 :> 2) @@ (3 :> 3)

HistsT == {<<W("add", 1, A, L1), W("add", 1, B, S1), W("add", 2, A, S2)>>,
           <<W("add", 1, A, S1), W("add", 1, A, L2), W("add", 1, B, L1), W("add", 2, A, L1)>>,
           <<W("add", 1, A, L1), W("del", 1, A, L1), W("add", 1, A, S2), W("add", 1, B, S2), W("add", 2, B, S1)>>}
Steps == {W("add", 1, A, S2), W("del", 1, A, L1), W("add", 1, B, L2), Srch(1, {A}), Srch(1, {A, B}), Cpt}
ProgsT == {<<Srch(1, {A}), Srch(1, {A, B})>>}
          \cup {<<o1, o2, Srch(c, {A}), Srch(c, {B})>> : o1, o2 \in Steps, c \in {1, 3}}
EmitT == CSVWrite("%1$s", <<ToJson([hist |-> hist, prog |-> prog, alter |-> alter])>>, IOEnv.OUT)
\* each altered storage once, with its programs
ENext == (phase = "attack" /\ Attack /\ (phase' = "run" => EmitT))
ESpec == Init /\ [][ENext]_vars
==================================================================================
