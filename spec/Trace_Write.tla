----------------------------- MODULE Trace_Write -----------------------------
(***************************************************************************)
(* Judges recorded executions of the serialiser: a container or value of   *)
(* known content was written into a builder that already held some text;   *)
(* a map was then parsed again and written once more.                      *)
(***************************************************************************)
EXTENDS HJWrite, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.HJ_TRACE)

Appends(r) == IsPrefix(r.pre, r.full)
Out(r) == SubSeq(r.full, Len(r.pre) + 1, Len(r.full))

WriteOK(r) ==
  CASE r.r = "ok"  -> /\ Appends(r)
                      /\ ~NoJSON(r.node)
                      /\ HasJSON(r.node) => Writes(r.node, Out(r))
                      /\ ~HasJSON(r.node) => Verdict(Run(Wrap(Out(r)))) \in {"accept", "may"}
                      /\ r.dep = 1
    [] r.r = "err" -> ~HasJSON(r.node) /\ Appends(r)
    [] r.r = "noparse" -> TRUE
    [] OTHER -> FALSE
Unchanged(r) == r.r \in {"noparse", "panic", "hang", "crash"} \/ r.after = r.node

TripOK(r) ==
  (r.kind = "map" /\ HasJSON(r.node) /\ ~HasBad(r.node)) =>
     /\ r.r = "ok" /\ r.rp = "ok" /\ Same(r.node, r.rpn)
     /\ r.r2 = "ok" /\ r.full2 = Out(r)

\* a clone that was made at the end has the content of the original
CloneOK(r) == r.rc = "none" \/ (r.rc = "ok" /\ r.cn = r.node)

Tags(r) == (IF CloneOK(r) THEN {} ELSE {"C12"}) \cup (IF WriteOK(r) /\ Unchanged(r) THEN {} ELSE {"C07"})
           \cup (IF Unchanged(r) THEN {} ELSE {"C22"})
           \cup (IF r.r = "noparse" \/ TripOK(r) THEN {} ELSE {"C08"})
           \cup (IF r.r \in {"panic", "hang", "crash"} \/ r.rp = "panic" THEN {"C19", "C07", "C08"} ELSE {})
           \cup (IF r.rc = "none" /\ r.r \in {"hang", "crash"} THEN {"C12"} ELSE {})

VARIABLES i, verdict
vars == <<i, verdict>>
Init == i \in 1..Len(Recs) /\ verdict = "none"
Judge == /\ verdict = "none"
         /\ LET r  == [Recs[i] EXCEPT !.node = Unpacked(@), !.after = Unpacked(@), !.rpn = Unpacked(@), !.cn = Unpacked(@)]
                tg == Tags(r)
            IN /\ verdict' = r.r
               /\ PrintT("V " \o r.kind \o " " \o r.r \o (IF r.r \notin {"ok"} \/ HasJSON(r.node) THEN "" ELSE " open"))
               /\ IF tg = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, want |-> "text that denotes the content", tags |-> SetToSeq(tg)]))
         /\ UNCHANGED i
Spec == Init /\ [][Judge]_vars
ASSUME PrintT(<<"RECORDS", Len(Recs)>>)
=============================================================================
