----------------------------------- MODULE MC -----------------------------------
(* Instances of the design specification: programs, initial indexes. Each      *)
(* configuration MC*.cfg picks some of them; see DESIGN.md.                    *)
EXTENDS Findex

A == "a"
B == "b"
C == "c"
d(x) == <<"d", x>>
p(x) == <<"p", x>>
Add(S) == [op |-> "add", cred |-> 1, as |-> S]
Del(S) == [op |-> "del", cred |-> 1, as |-> S]
Srch(K) == [op |-> "search", cred |-> 1, kws |-> K, stop |-> 0]
SrchN(K) == [op |-> "search", cred |-> 2, kws |-> K, stop |-> 0]
Cpt(o, n, drop, full) == [op |-> "compact", cred |-> o, old |-> o, new |-> n, drop |-> drop, full |-> full]
Key1 == (1 :> 1)
\* 1 and 2 have different keys; 3 has the key of 1 and another label
Key3 == (1 :> 1) @@ (2 :> 2) @@ (3 :> 1)

V1 == {d("1")}
V2 == {d("1"), d("2")}
V3 == {d("1"), d("2"), p(B)}

(* ------------------------------- concurrency ------------------------------ *)
Ops2 == {Add(A :> V1), Del(A :> V1), Add((A :> V1) @@ (B :> {d("2")})),
         Del((A :> V1) @@ (B :> {d("2")})), Add((A :> {p(B)}) @@ (B :> {d("2")})),
         Srch({A}), Srch({A, B})}
Progs2 == {("x" :> <<o1>>) @@ ("y" :> <<o2>>) : o1, o2 \in Ops2}
Inits2 == {<<>>, <<Add(A :> V1)>>, <<Add(A :> V1), Del((A :> V1) @@ (B :> {d("2")}))>>}
Inits1 == {<<>>, <<Add(A :> V1)>>}

Ops3 == {Add(A :> V1), Del(A :> V1), Srch({A})}
Progs3 == {("x" :> <<o1>>) @@ ("y" :> <<o2>>) @@ ("z" :> <<o3>>) : o1, o2, o3 \in Ops3}
\* two keywords, three writers
Ops3b == {Add(A :> V1), Add((A :> V1) @@ (B :> V1)), Del((A :> V1) @@ (B :> V1)), Srch({A, B})}
Progs3b == {("x" :> <<o1>>) @@ ("y" :> <<o2>>) @@ ("z" :> <<o3>>) : o1, o2, o3 \in Ops3b}
\* two operations per client
Progs22 == {("x" :> <<o1, o2>>) @@ ("y" :> <<o3, o4>>) : o1, o2, o3, o4 \in Ops3}
\* writers only (retries)
ProgsW == {f \in Progs2 : \A c \in DOMAIN f : f[c][1].op # "search"}

(* ---------------------------------- crash --------------------------------- *)
\* a client that may fail or die, another one working on the same keywords,
\* then both retry
OpsC == {Add((A :> V1) @@ (B :> {d("2")})), Del((A :> V1)), Add((A :> {d("2")}))}
ProgsC == {("x" :> <<o1>>) @@ ("y" :> <<o2, Srch({A, B})>>) : o1, o2 \in OpsC}
ProgsC1 == {("x" :> <<o1>>) @@ ("y" :> <<o2>>) : o1, o2 \in OpsC}

(* ---------------------------------- graph --------------------------------- *)
\* every graph of pointers between three keywords, one datum each
Kw3 == {A, B, C}
DatumOf(k) == CASE k = A -> d("1") [] k = B -> d("2") [] OTHER -> d("3")
GraphVals == {d("1"), d("2"), d("3"), p(A), p(B), p(C)}
Graphs == {<<Add([k \in Kw3 |-> {DatumOf(k)} \cup {p(x) : x \in g[k]}])>> : g \in [Kw3 -> SUBSET Kw3]}
\* dangling pointers: c is never indexed
GraphsD == {<<Add([k \in {A, B} |-> {DatumOf(k)} \cup {p(x) : x \in g[k]}])>> : g \in [{A, B} -> SUBSET Kw3]}
ProgsG1 == {"x" :> <<Srch(Kw3)>>}
ProgsG == {"x" :> <<[op |-> "search", cred |-> 1, kws |-> K, stop |-> s]>> : K \in {{A}, {B, C}, {A, B, C}}, s \in 0..2}

(* -------------------------------- compaction ------------------------------ *)
\* indexes with duplicates, deletions, pointers, an emptied keyword
IdxC == {<<Add((A :> V1) @@ (B :> {d("2"), p(A)}))>>,
         <<Add((A :> V1) @@ (B :> V1)), Add(A :> {d("2")}), Del(B :> V1)>>,
         <<Add((A :> V1)), Del(A :> V1), Add((A :> {d("2")}) @@ (B :> V2))>>}
ValsC == {d("1"), d("2"), p(A), p(B)}
Drops == {{}, V1, V2}
ProgsK == {"x" :> <<Cpt(1, n, dr, full)>> : n \in {2, 3}, dr \in Drops, full \in BOOLEAN}
\* full compactions only (schedules of the partial ones depend on random draws)
ProgsKF == {"x" :> <<Cpt(1, n, dr, TRUE)>> : n \in {2, 3}, dr \in Drops}
\* ... then modifies and compacts again under the new credentials
ProgsKK == {"x" :> <<Cpt(1, 2, dr, f1), [Add(A :> V1) EXCEPT !.cred = 2], Cpt(2, 3, {}, f2)>> :
              dr \in {{}, V1}, f1, f2 \in BOOLEAN}
\* a failing compaction, then another client retries it (possibly at the same time)
ProgsKR == {("x" :> <<Cpt(1, n, {}, TRUE)>>) @@ ("y" :> <<Cpt(1, n2, {}, TRUE)>>) : n \in {2, 3}, n2 \in {2, 3}}
\* a compaction and searches under both credentials
ProgsKS == {("x" :> <<Cpt(1, 2, dr, TRUE)>>) @@ ("y" :> <<Srch({A}), SrchN({A, B})>>) : dr \in {{}, V1}}
\* a compaction and a writer
ProgsKW == {("x" :> <<Cpt(1, 2, {}, TRUE)>>) @@ ("y" :> <<o>>) :
              o \in {Add(A :> {d("3")}), Add((A :> {d("3")}) @@ (C :> {d("3")})), Add(C :> {d("3")}),
                     Del(A :> V1), Del((A :> V2) @@ (B :> V1))}}
\* ... under the new credentials
ProgsKN == {("x" :> <<Cpt(1, 2, {}, TRUE)>>) @@ ("y" :> <<[o EXCEPT !.cred = 2]>>) :
              o \in {Add(A :> {d("3")}), Add((A :> {d("3")}) @@ (C :> {d("3")})), Add(C :> {d("3")}),
                     Del(A :> V1), Del((A :> V2) @@ (B :> V1))}}
\* two indexes in the same tables: labels (key of 1, label of 3), or another key
Idx3 == {<<Add((A :> V1) @@ (B :> {d("2")})), [Add((A :> {d("2")})) EXCEPT !.cred = 3]>>}
Idx2 == {<<Add((A :> V1) @@ (B :> {d("2")})), [Add((A :> {d("2")})) EXCEPT !.cred = 2]>>}
ProgsL == {"x" :> <<Cpt(1, 4, dr, full)>> : dr \in {{}, V1}, full \in BOOLEAN}
Key4 == (1 :> 1) @@ (2 :> 2) @@ (3 :> 1) @@ (4 :> 4)
ValsW == {d("1"), d("2"), d("3"), p(A), p(B)}

(* ---------------------- sequential refinement of Index -------------------- *)
OpsS == {Add((A :> V1) @@ (B :> {d("2")})), Add(A :> {d("2")}), Del(A :> V1), Del((A :> V2) @@ (B :> {d("2")})), Srch({A, B})}
ProgsS == {"x" :> <<o1, o2, o3>> : o1, o2, o3 \in OpsS}
RECURSIVE Ideal(_, _)
Ideal(ops, f) ==
  IF ops = <<>> THEN f
  ELSE Ideal(Tail(ops), IF Head(ops).op = "search" THEN f
                        ELSE [k \in Kws |-> IF k \in DOMAIN Head(ops).as THEN ApplyOp(Head(ops).op, f[k], Head(ops).as[k]) ELSE f[k]])
\* a single client sees the abstract index: between operations the content is
\* the ideal one, and searches answer it
SeqExact ==
  \A c \in Clients : pc[c] = "idle" =>
     LET done == SubSeq(prog[c], 1, ip[c] - 1)
         f == Ideal(init0 \o done, [k \in Kws |-> {}])
     IN /\ \A k \in Kws : Content(1, k) = f[k]
        /\ (Len(done) > 0 /\ done[Len(done)].op = "search") =>
              \A k \in done[Len(done)].kws : res[c][Len(done)].out[k] = Closure(f, k)
\* what a client does under credentials that no compaction is about is what it would do
\* alone, whatever a compaction does to the rest of the tables at the same time
ProgsLC == {("x" :> <<Cpt(1, 4, dr, full)>>) @@ ("y" :> <<[o EXCEPT !.cred = cr], [Srch({A, B}) EXCEPT !.cred = cr]>>) :
              dr \in {{}, V2}, full \in BOOLEAN, cr \in {2, 3},
              o \in {Add((A :> V1) @@ (B :> V1)), Del(A :> {d("2")}), Add(B :> {d("2")})}}
ProgsLCF == {f \in ProgsLC : f["y"][1].cred = 3 /\ f["x"][1].full /\ f["y"][1].op = "add"}
Mine(s, cr) == SelectSeq(s, LAMBDA o : o.cred = cr)
AloneOK ==
  (pc["y"] = "idle" /\ \A j \in DOMAIN res["y"] : res["y"][j].st = "ok") =>
     LET cr == prog["y"][1].cred
         done == SubSeq(prog["y"], 1, ip["y"] - 1)
         f == Ideal(Mine(init0, cr) \o done, [k \in Kws |-> {}])
     IN /\ \A k \in Kws : Content(cr, k) = f[k]
        /\ (Len(done) > 0 /\ done[Len(done)].op = "search") =>
              \A k \in done[Len(done)].kws : res["y"][Len(done)].out[k] = Closure(f, k)
=================================================================================
