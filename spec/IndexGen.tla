-------------------------------- MODULE IndexGen --------------------------------
(* Random histories of the abstract index, drawn by TLC in simulation mode.     *)
EXTENDS Index, Randomization, Json, IOUtils, CSV

(* ------------------------------- generator -------------------------------- *)
VARIABLES hist
gvars == <<m, e, cr, last, hist>>
GenLen == atoi(IOEnv.GEN_LEN)
Mix == JsonDeserialize(IOEnv.GEN_MIX)

GInit == IInit /\ hist = <<>>
Pick(S) == RandomElement(S)
\* deletions are drawn half of the time among what is stored
Stored == {<<t[2], v[1], v[2]>> : t \in {x \in DOMAIN m : x[1] = cr}, v \in Values} \cap
          UNION {{<<t[2], v[1], v[2]>> : v \in m[t]} : t \in {x \in DOMAIN m : x[1] = cr}}
Subset(S) == RandomSubset(Pick(1..(IF Cardinality(S) < 4 THEN Cardinality(S) ELSE 4)), S)
Next1(k) ==
  CASE k = "add" -> \E S \in {Subset(Pairs)} : Write("add", S)
    [] k = "del" -> \E S \in {IF Stored # {} /\ Pick(1..3) > 1 THEN Subset(Stored) ELSE Subset(Pairs)} : Write("del", S)
    [] k = "search" -> \E K \in {Subset(Kws)}, s \in {Pick(1..5)} : Search(K, IF s > 3 THEN s - 3 ELSE 0)
    [] k = "full" -> \E d \in {IF Pick(1..3) = 1 THEN Subset(Data) ELSE {}} : Compact(1 + (cr % NCreds), Kws, "full", d)
    [] k = "part" -> \E d \in {IF Pick(1..3) = 1 THEN Subset(Data) ELSE {}}, T \in {Pick(SUBSET Kws)} :
                        Compact(1 + (cr % NCreds), T, "part", d)
    [] k = "switch" -> \E n \in {Pick(Creds)} : cr' = n /\ UNCHANGED <<m, e>> /\ last' = [op |-> "switch", cred |-> n]
GNext ==
  /\ Len(hist) < GenLen
  /\ \E k \in {Mix[Pick(DOMAIN Mix)]} : Next1(k)
  /\ hist' = Append(hist, last')
  /\ Len(hist') = GenLen => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)
GSpec == GInit /\ [][GNext]_gvars
=================================================================================
