-------------------------------- MODULE MCExport --------------------------------
(* Writes the behaviours of the design specification: which client does which   *)
(* storage access, in which order, and which accesses fail. They are replayed   *)
(* on the real code.                                                            *)
EXTENDS MC, Json, IOUtils, CSV

VARIABLE hist
xvars == <<vars, hist>>

XInit == Init /\ hist = <<>>
Emit == CSVWrite("%1$s", <<ToJson([prog |-> prog, init0 |-> init0, hist |-> hist', res |-> res'])>>, IOEnv.OUT)
XNext ==
  /\ \/ \E c \in Clients, dd \in Decisions :
          Step(c, dd) /\ hist' = Append(hist, [c |-> c, d |-> dd, k |-> CallOf(c)])
     \/ \E c \in Clients : Crash(c) /\ hist' = Append(hist, [c |-> c, d |-> "crash", k |-> CallOf(c)])
  /\ AllDone' => Emit
XSpec == XInit /\ [][XNext]_xvars
=================================================================================
