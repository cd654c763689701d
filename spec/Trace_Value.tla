----------------------------- MODULE Trace_Value -----------------------------
(***************************************************************************)
(* Judges what the accessors of values, maps and arrays said.              *)
(***************************************************************************)
EXTENDS HJAccess, Json, IOUtils
W == INSTANCE HJWrite

Recs == ndJsonDeserialize(IOEnv.HJ_TRACE)

\* the answers of one object, as a set of [a |-> accessor, c |-> class, v |-> result]
None == [t |-> "none"]
Answers(tab, g) ==
       {[a |-> x.a, c |-> "ok", v |-> tab[x.i]] : x \in ToSet(g.ok)}
  \cup {[a |-> n, c |-> "err", v |-> None] : n \in ToSet(g.err)}
  \cup {[a |-> n, c |-> "nil", v |-> None] : n \in ToSet(g.nil)}
  \cup {[a |-> n, c |-> "true", v |-> None] : n \in ToSet(g["true"])}
  \cup {[a |-> n, c |-> "false", v |-> None] : n \in ToSet(g["false"])}
  \cup {[a |-> n, c |-> "odd", v |-> None] : n \in ToSet(g.odd)}
  \cup {[a |-> n, c |-> "panic", v |-> None] : n \in ToSet(g.panic)}

Bool(b) == IF b THEN "true" ELSE "false"
Panics(x) == IF x.c = "panic" THEN {"C19"} ELSE {}

\* a scalar accessor, a predicate, the type, the object: x about content c
\* whose Go type is gt
OnContent(x, c, gt) ==
  CASE x.a \in Scalars -> IF Answer(Accessor(x.a), c, x.c, x.v) THEN {} ELSE Owner(Accessor(x.a), c) \cup Panics(x)
    [] x.a \in ValuePreds \cup MapPreds -> IF x.c = Bool(Holds(x.a, c)) THEN {} ELSE PredOwner(x.a, c) \cup Panics(x)
    [] x.a = "GetType" -> IF x.c = "ok" /\ x.v.t = "str" /\ x.v.s = gt /\ TypeNamed(c, gt) THEN {}
                          ELSE {"C16"} \cup (IF c.t = "null" THEN {"C15"} ELSE {}) \cup Panics(x)
    [] x.a \in {"GetObject", "GetObjectForMap"} -> IF x.c = "ok" /\ x.v = c THEN {} ELSE {"C14"} \cup (IF c.t = "null" THEN {"C15"} ELSE {}) \cup Panics(x)
    [] OTHER -> Panics(x)

OnMap(r, x) ==
  CASE x.a \in DOMAIN BulkName -> IF BulkAnswer(BulkName[x.a], r.mc, x.c, x.v) THEN {} ELSE BulkOwner(r.mc) \cup Panics(x)
    [] x.a = "HasKey" -> IF x.c = Bool(r.route # "absent") THEN {} ELSE {"C09", "C15"} \cup Panics(x)
    [] x.a = "GetValue" -> IF (x.c = "ok" /\ x.v = r.mc) \/ (x.c = "nil" /\ r.mc.t = "null") THEN {} ELSE {"C14"} \cup Panics(x)
    [] OTHER -> OnContent(x, r.mc, r.mt)

\* GetMap/i and GetStringValue/i come as a record of name and index
IndexedWant(a, c, i) == IF i < 0 \/ i >= Len(c.vs) THEN "err"
                        ELSE Want(a, c.vs[i + 1])
OnArray(r, x) ==
  IF x.a \in DOMAIN BulkName
  THEN IF BulkAnswer(BulkName[x.a], r.vc, x.c, x.v) THEN {} ELSE BulkOwner(r.vc) \cup Panics(x)
  ELSE Panics(x)
OnIndex(r, x) ==
  LET a == [OtherName[x.a] EXCEPT !.f = "val"]
      ok == IF x.i < 0 \/ x.i >= Len(r.vc.vs) THEN x.c = "err"
            ELSE Answer(a, r.vc.vs[x.i + 1], x.c, IF x.c = "ok" THEN r.tab[x.n] ELSE None)
  IN IF ok THEN {} ELSE {"C10", "C17"} \cup (IF x.c = "panic" THEN {"C19"} ELSE {})

Equal(r, e) ==
  IF "nil" \in DOMAIN e THEN IF e.nil = Bool(r.vc.t = "null") THEN {} ELSE {"C16"}
  ELSE LET want == Bool(r.vc.t = "str" /\ r.vc.s = e.s)
       IN IF e.IsValueEqualToString = want /\ e.IsValueEqualToStringValue = want THEN {}
          ELSE {"C16"} \cup (IF r.vc.t = "null" THEN {"C15"} ELSE {}) \cup (IF e.IsValueEqualToString = "panic" \/ e.IsValueEqualToStringValue = "panic" THEN {"C19"} ELSE {})

\* raw and pointer forms show what was set, the others what is stored
Text(r, x) ==
  LET c == IF x.form \in {"raw", "pointer"} THEN r.set ELSE r.vc
  IN IF c.t = "fltx" THEN (IF x.r = "panic" THEN {"C21", "C19"} ELSE {})
     ELSE IF HasText(c) THEN (IF x.r = "ok" /\ TextOK(c, x.s) THEN {} ELSE {"C21"} \cup (IF c.t = "time" THEN {"C20"} ELSE {})
                                                                          \cup (IF x.r = "panic" THEN {"C19"} ELSE {}))
     ELSE IF x.r = "err" THEN {} ELSE {"C21"} \cup (IF x.r = "panic" THEN {"C19"} ELSE {})

\* what was set is what is there
Stored(r, c) ==
  CASE r.route = "set"    -> c = r.set
    [] r.route = "absent" -> c.t = "null"
    [] r.route = "clone"  -> c = r.set \/ r.set.t = "func"
    [] r.route = "parse"  -> (CASE r.set.t = "time" -> c.t = "str" /\ c.s = r.set.s
                                [] r.set.t = "err"  -> c.t = "str" /\ c.s = r.set.s
                                [] OTHER -> W!Same(r.set, c))
StoredTags(r) == CASE r.route = "set" -> {"C14"} [] r.route = "absent" -> {"C15"} [] r.route = "clone" -> {"C12"} [] r.route = "parse" -> {"C08", "C07"}
                 \cup (IF r.set.t = "time" THEN {"C20"} ELSE {}) \cup (IF r.set.t = "null" THEN {"C15"} ELSE {})

\* every accessor has answered, exactly once
Complete(as, need) == need \subseteq {x.a : x \in as} /\ Cardinality(as) = Cardinality({x.a : x \in as})

Tags(r) ==
  IF r.r # "ok"
  THEN CASE r.r = "write" -> {"C07"} [] r.r = "parse" -> {"C08"} [] r.r = "clone" -> {"C12"}
         [] OTHER -> {"C13", "C14", "C15", "C16", "C17", "C19", "C20", "C21"}
  ELSE LET ma == Answers(r.tab, r.map)
           va == Answers(r.tab, r.value)
           aa == Answers(r.tab, r.array)
       IN (IF Stored(r, r.mc) /\ (r.hasvalue = 1 => Stored(r, r.vc)) THEN {} ELSE StoredTags(r))
          \cup (IF r.same = 1 THEN {} ELSE {"C22"})
          \cup (IF r.isnil = 0 THEN {} ELSE {"C15"})
          \cup UNION {OnMap(r, x) : x \in ma}
          \cup (IF Complete(ma, MapHas) THEN {} ELSE {"C19"})
          \cup (IF r.hasvalue = 0 THEN {} ELSE
                  UNION {OnContent(x, r.vc, r.vt) : x \in va}
                  \cup (IF Complete(va, ValueHas) THEN {} ELSE {"C19"})
                  \cup UNION {Equal(r, r.eq[k]) : k \in 1..Len(r.eq)}
                  \cup UNION {Text(r, r.txt[k]) : k \in 1..Len(r.txt)})
          \cup (IF r.hasarray = 0 THEN {} ELSE
                  UNION {OnArray(r, x) : x \in aa}
                  \cup (IF Complete(aa, ArrayHas) THEN {} ELSE {"C19"})
                  \cup UNION {OnIndex(r, r.index[k]) : k \in 1..Len(r.index)})

\* the answers that are wrong, for the report
Wrong(r) ==
  IF r.r # "ok" THEN {r.r}
  ELSE      {"map." \o x.a \o ":" \o x.c : x \in {y \in Answers(r.tab, r.map) : OnMap(r, y) # {}}}
       \cup (IF r.hasvalue = 0 THEN {} ELSE {"value." \o x.a \o ":" \o x.c : x \in {y \in Answers(r.tab, r.value) : OnContent(y, r.vc, r.vt) # {}}}
                                            \cup {"text of " \o r.txt[k].form : k \in {j \in 1..Len(r.txt) : Text(r, r.txt[j]) # {}}})
       \cup (IF r.hasarray = 0 THEN {} ELSE {"array." \o x.a \o ":" \o x.c : x \in {y \in Answers(r.tab, r.array) : OnArray(r, y) # {}}})

VARIABLES i, verdict
vars == <<i, verdict>>
Init == i \in 1..Len(Recs) /\ verdict = "none"
Judge == /\ verdict = "none"
         /\ LET r  == Recs[i]
                tg == Tags(r)
            IN /\ verdict' = r.r
               /\ PrintT("V " \o r.route \o " " \o r.set.t)
               /\ IF tg = {} THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, want |-> SetToSeq(Wrong(r)), tags |-> SetToSeq(tg)]))
         /\ UNCHANGED i
Spec == Init /\ [][Judge]_vars
ASSUME PrintT(<<"RECORDS", Len(Recs)>>)
=============================================================================
