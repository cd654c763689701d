------------------------------ MODULE Trace_Conc ------------------------------
(***************************************************************************)
(* Judges recorded runs of several goroutines that used the library at the *)
(* same time.  A record is a behaviour of HJConc in the design "private":  *)
(* for every client the sequence of its calls, what each of them returned  *)
(* (in every repetition) and what the same call returned when it was       *)
(* alone; the shared document before and after; how many accesses the race *)
(* detector saw that HJConc!NoRace forbids.  What a call returns alone is  *)
(* not taken from the code where the specification knows it: parsing is    *)
(* judged by HJText, writing by HJWrite, cloning, reading and key lists by *)
(* the content of the document.                                            *)
(***************************************************************************)
EXTENDS HJWrite, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.HJ_TRACE)

\* the part of the document a path leads to; "none" where the driver may stop
\* in different places (nil pointers, empty containers)
RECURSIVE At(_, _)
At(o, p) ==
  IF p = <<>> THEN o
  ELSE IF o.t \in {"map", "arr"}
       THEN IF o.vs = <<>> THEN [t |-> "none"]
            ELSE LET c == o.vs[(Head(p) % Len(o.vs)) + 1]
                 IN IF c.t = "null" THEN [t |-> "none"] ELSE At(c, Tail(p))
       ELSE o

\* content whose clone has to be equal to it
RECURSIVE Plain(_)
Plain(o) == CASE o.t \in {"null", "bool", "str", "int", "flt", "time"} -> TRUE
              [] o.t \in {"map", "arr"} -> \A i \in 1..Len(o.vs) : Plain(o.vs[i])
              [] OTHER -> FALSE

\* what the specification says about the result x of call c, alone or not
Expected(c, o, x) ==
  CASE c.op = "parse" -> LET st == Run(c.txt)  v == Verdict(st)
                         IN CASE v = "accept" -> x.r = "ok" /\ Match(st.root, x.node)
                              [] v = "may" -> x.r = "err" \/ (x.r = "ok" /\ Match(st.root, x.node))
                              [] v = "reject" -> x.r = "err"
                              [] OTHER -> x.r \in {"ok", "err"}
    [] c.op = "write" -> LET n == At(o, c.path) IN n.t = "none" \/ (HasJSON(n) => x.r = "ok" /\ Writes(n, x.s))
    [] c.op = "build" -> HasJSON(x.node) => x.r = "ok" /\ Writes(x.node, x.s)
    [] c.op = "clone" -> LET n == At(o, c.path) IN n.t # "none" /\ Plain(n) => x.r = "ok" /\ x.node = n
    [] c.op = "dump"  -> LET n == At(o, c.path) IN n.t = "none" \/ x.node = n
    [] c.op = "keys"  -> LET n == At(o, c.path) IN n.t = "map" /\ x.x = "at" => x.ks = n.ks /\ x.s = <<Len(n.ks)>>
    [] OTHER -> TRUE

AsAlone(r) == \A g \in 1..Len(r.got) : \A k \in 1..Len(r.got[g]) : r.got[g][k] = <<r.alone[g][k]>>
AsSpecified(r) == \A g \in 1..Len(r.got) : \A k \in 1..Len(r.got[g]) :
                    /\ r.tab[r.alone[g][k]].r \in {"ok", "err"}
                    /\ \A i \in ToSet(r.got[g][k]) : Expected(r.calls[g][k], r.node, r.tab[i])
Untouched(r) == r.after = r.node /\ r.twin = r.node
NoRace(r) == r.races = 0

Want(r) == IF r.r # "ok" THEN "every call returns"
           ELSE IF ~NoRace(r) THEN "no data race"
           ELSE IF ~AsAlone(r) THEN "every call returns what it returns alone"
           ELSE IF ~Untouched(r) THEN "the document stays as it is"
           ELSE IF ~AsSpecified(r) THEN "what the specification says"
           ELSE ""

VARIABLES i, verdict
vars == <<i, verdict>>
Init == i \in 1..Len(Recs) /\ verdict = "none"
Judge == /\ verdict = "none"
         /\ LET r == Recs[i]
                w == IF r.r = "noparse" THEN "" ELSE Want(r)
            IN /\ verdict' = w
               /\ PrintT("V " \o r.r)
               /\ IF w = "" THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, want |-> w, tags |-> <<"C18">>]))
         /\ UNCHANGED i
Spec == Init /\ [][Judge]_vars
ASSUME PrintT(<<"RECORDS", Len(Recs)>>)
=============================================================================
