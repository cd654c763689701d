----------------------------- MODULE Trace_Parse -----------------------------
(***************************************************************************)
(* Judges recorded executions of Parse.  One record is one text that the   *)
(* real Parse was given, and what it returned.  The specification replays  *)
(* the text through the automaton of HJText and compares.                  *)
(***************************************************************************)
EXTENDS HJText, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.HJ_TRACE)

ResultOf(r) == IF r.flat = <<>> THEN r.node ELSE Rebuilt(r.flat)

(* Where a stored document x' differs from the written one: property tags. *)
RECURSIVE Diff(_, _)
Diff(x, o) ==
  CASE x.t = "num"  -> IF NumFaithful(x.l, o) THEN {}
                       ELSE {"C02", IF IsIntegerLit(x.l) THEN "C04" ELSE "C05"}
    [] x.t = "str"  -> IF o.t = "str" /\ o.s = x.s THEN {} ELSE {"C02", "C06"}
    [] x.t = "arr"  -> IF o.t # "arr" THEN {"C02"}
                       ELSE IF Len(o.vs) # Len(x.vs) THEN {"C02"}
                       ELSE UNION {Diff(x.vs[i], o.vs[i]) : i \in 1..Len(x.vs)}
    [] x.t = "map"  -> IF o.t # "map" THEN {"C02"}
                       ELSE IF Len(o.vs) # Len(x.vs) \/ Len(o.ks) # Len(x.ks)
                            THEN {"C02"} \cup (IF ToSet(o.ks) # ToSet(x.ks) THEN {"C06"} ELSE {})
                       ELSE (IF o.ks = x.ks THEN {}
                             ELSE IF ToSet(o.ks) = ToSet(x.ks) THEN {"C02"} ELSE {"C02", "C06"})
                            \cup UNION {Diff(x.vs[i], o.vs[i]) : i \in 1..Len(x.vs)}
    [] OTHER -> IF Match(x, o) THEN {} ELSE {"C02"}

\* the property a family of cases is about, next to the general one
FamTag(fam) == CASE fam = "int" -> {"C04"} [] fam = "dec" -> {"C05"} [] fam = "str" -> {"C06"} [] OTHER -> {}

\* the properties a record violates
Tags(r, st, v) ==
  LET c1 == (IF r.r \in {"ok", "err"} THEN {} ELSE {"C01"})
            \cup (IF r.again = 1 THEN {} ELSE {"C01"})
            \cup (IF r.ind = 1 THEN {} ELSE {"C01", "C22"})
      answered == r.r \in {"ok", "err"}
  IN c1 \cup
     CASE v = "accept" -> IF r.r = "ok" THEN Diff(st.root, ResultOf(r)) ELSE {"C02"} \cup FamTag(r.fam)
       [] v = "may"    -> IF r.r = "ok" THEN Diff(st.root, ResultOf(r)) ELSE {}
       [] v = "any"    -> {}
       [] v = "reject" -> IF r.r = "err" THEN {} ELSE {"C03"} \cup FamTag(r.fam)

VARIABLES i, verdict
vars == <<i, verdict>>
Init == i \in 1..Len(Recs) /\ verdict = "none"
Judge == /\ verdict = "none"
         /\ LET st == Run(Recs[i].txt)
                v  == Verdict(st)
                tg == Tags(Recs[i], st, v)
            IN /\ verdict' = v
               /\ PrintT("V " \o v)
               /\ IF tg = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToJson([id |-> Recs[i].id, want |-> v, tags |-> SetToSeq(tg)]))
         /\ UNCHANGED i
Spec == Init /\ [][Judge]_vars

(* What the records covered, by verdict. *)
Report == PrintT(<<"RECORDS", Len(Recs)>>)
ASSUME Report
=============================================================================
