-------------------------------- MODULE ReplicasMC -------------------------------
(* Instances of Replicas.tla, and export of their behaviours. *)
EXTENDS Replicas, Json, IOUtils, CSV

A == "a"
B == "b"
d(x) == <<"d", x>>
p(x) == <<"p", x>>
Add(S) == [op |-> "add", as |-> S]
Del(S) == [op |-> "del", as |-> S]
Srch(K) == [op |-> "search", kws |-> K]
Cpt == [op |-> "compact"]
V == {d("1"), d("2"), p(B)}

H1 == {<<>>, <<Add(A :> {d("1")})>>, <<Add((A :> {d("2"), p(B)}) @@ (B :> {d("1")}))>>, <<Del(A :> {d("1")})>>,
       <<Add(A :> {d("1")}), Del((A :> {d("1")}) @@ (B :> {d("2")}))>>, <<Add(B :> {d("2")})>>}
NoCommon == {<<>>}
WithCommon == {<<Add((A :> {d("1")}) @@ (B :> {d("2")}))>>, <<Add(A :> {d("1"), p(B)})>>}
Two == {<<x, y>> : x, y \in H1}
Three == {<<x, y, z>> : x, y, z \in {<<>>, <<Add(A :> {d("1")})>>, <<Add((A :> {d("2"), p(B)}) @@ (B :> {d("1")}))>>}}

Ops == {Add(A :> {d("2")}), Del((A :> {d("1")}) @@ (B :> {d("1")})), Add(B :> {p(A)}), Srch({A}), Cpt}
Seq3 == {"x" :> <<o1, o2, Srch({A, B})>> : o1, o2 \in Ops}
\* two clients at the same time
Writes == {Add(A :> {d("2")}), Del((A :> {d("1")}) @@ (B :> {d("1")})), Add(B :> {p(A)}), Srch({A, B})}
Conc == {("x" :> <<o1>>) @@ ("y" :> <<o2>>) : o1, o2 \in Writes}

\* forked replicas that never extend the same chain
Apart == ~Collide(common, halves)
SpecApart == Init /\ Apart /\ [][Next]_vars /\ \A c \in Clients : WF_vars(Step(c))
EInit == Init /\ Apart
Emit == CSVWrite("%1$s", <<ToJson([common |-> common, halves |-> halves, prog |-> prog])>>, IOEnv.OUT)
ENext == UNCHANGED <<common, halves, prog, et, ct, fresh, pc, loc, res, val>> /\ (\A c \in Clients : ip[c] = 1)
         /\ ip' = [c \in Clients |-> 0] /\ Emit
ESpec == EInit /\ [][ENext]_vars
==================================================================================
