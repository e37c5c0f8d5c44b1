------------------------------- MODULE TraceBase -------------------------------
(* Reading of the traces recorded from the real code. Each episode is one      *)
(* initial state, so that TLC validates the episodes independently; the last   *)
(* state of an episode writes the obligations it violated, if any.             *)
EXTENDS FindexCore, Json, IOUtils, CSV

Traces == ndJsonDeserialize(IOEnv.TRACES)
OutFile == IOEnv.OUT

Ids == DOMAIN Traces
Ev(ep) == Traces[ep].ev
Meta(ep) == Traces[ep].meta

Has(r, f) == f \in DOMAIN r

\* writes what an episode violated; always true
Report(ep, bad) ==
  IF bad = {} THEN TRUE
  ELSE CSVWrite("%1$s", <<ToJson([id |-> Traces[ep].id, bad |-> bad])>>, OutFile)

\* content of a function given as a sequence of pairs <<key, sequence>>. TLC does
\* not cache definitions within actions: they are bound as elements of singletons
PairsToFun(s) ==
  CHOOSE f \in {TLCEval([k \in {q[i][1] : i \in DOMAIN q} |->
                    LET i == CHOOSE j \in DOMAIN q : q[j][1] = k IN SeqSet(q[i][2])]) : q \in {s}} : TRUE
DupKeys(s) == Cardinality({s[i][1] : i \in DOMAIN s}) # Len(s)
================================================================================
