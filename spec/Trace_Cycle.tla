---------------------------- MODULE Trace_Cycle ----------------------------
(***************************************************************************)
(* Judges recorded walks of the real code through graphs of containers:    *)
(* a record is the graph g (the containers in each container, the root is  *)
(* 1), the operation, and how it ended.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
C == INSTANCE HJCycle WITH Design <- "path", Nodes <- {1}, MaxOut <- 1, graph <- <<>>, stack <- <<>>, seen <- {}, result <- ""
Recs == ndJsonDeserialize(IOEnv.HJ_TRACE)
Want(r) == CASE r.op \in {"write", "clone"} -> IF C!Endless(r.g, 1) THEN "err" ELSE "ok"
             [] OTHER -> "ok"
VARIABLES i, verdict
vars == <<i, verdict>>
Init == i \in 1..Len(Recs) /\ verdict = "none"
Judge == /\ verdict = "none"
         /\ LET r == Recs[i] IN
              /\ verdict' = r.r
              /\ PrintT("V walk " \o r.op \o " " \o r.r)
              /\ IF r.r = Want(r) THEN TRUE
                 ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, want |-> <<Want(r)>>, tags |-> <<"C19">>]))
         /\ UNCHANGED i
Spec == Init /\ [][Judge]_vars
ASSUME PrintT(<<"RECORDS", Len(Recs)>>)
=============================================================================
