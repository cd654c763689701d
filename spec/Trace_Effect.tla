---------------------------- MODULE Trace_Effect ----------------------------
(***************************************************************************)
(* Judges recorded calls of every operation of the API: that it returned,  *)
(* what it did to its object, and that the object still works.             *)
(***************************************************************************)
EXTENDS HJEffect, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.HJ_TRACE)

Step(r, s) ==
  LET as == [k \in 1..Len(s.as) |-> r.tab[s.as[k]]]
  IN IF s.r \in {"panic", "absent"} THEN {"C19"}
     ELSE IF s.x = 1
     THEN IF as[1].t = "none" \/ r.tab[s.e] = as[1] THEN {} ELSE {"C14"}
     ELSE LET before == r.tab[s.b]
              want == After(r.on, s.op, as, before)
              out == Outcome(r.on, s.op, as, before)
              own == IF r.on = "map" THEN {"C09"} ELSE IF r.on = "array" THEN {"C10"} ELSE {}
          IN      (IF want = Open \/ r.tab[s.e] = want THEN {} ELSE IF Changes(r.on, s.op) THEN own \cup {"C14"} ELSE own \cup {"C22"})
             \cup (IF out = "any" \/ s.r = out THEN {} ELSE own \cup {"C19"})
             \cup (IF s.p = "ret" THEN {} ELSE {"C19"})
Tags(r) ==
  IF r.r # "ok" THEN {"C19"}
  ELSE UNION {Step(r, r.steps[k]) : k \in 1..Len(r.steps)}
       \cup (IF Has(r.on) \cup Makers \subseteq {r.steps[k].op : k \in 1..Len(r.steps)} THEN {} ELSE {"C19"})
Wrong(r) == IF r.r # "ok" THEN {r.r}
            ELSE {r.steps[k].op \o ":" \o r.steps[k].r : k \in {j \in 1..Len(r.steps) : Step(r, r.steps[j]) # {}}}
                 \cup (Has(r.on) \ {r.steps[k].op : k \in 1..Len(r.steps)})

VARIABLES i, verdict
vars == <<i, verdict>>
Init == i \in 1..Len(Recs) /\ verdict = "none"
Judge == /\ verdict = "none"
         /\ LET r  == Recs[i]
                tg == Tags(r)
            IN /\ verdict' = r.r
               /\ PrintT("V effects on " \o r.on)
               /\ IF tg = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, want |-> SetToSeq(Wrong(r)), tags |-> SetToSeq(tg)]))
         /\ UNCHANGED i
Spec == Init /\ [][Judge]_vars
ASSUME PrintT(<<"RECORDS", Len(Recs)>>)
=============================================================================
