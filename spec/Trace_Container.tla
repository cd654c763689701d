--------------------------- MODULE Trace_Container ---------------------------
(***************************************************************************)
(* Judges recorded histories: the specification takes the same steps, and  *)
(* after each of them the result and everything seen of every slot must be *)
(* what the specification says.                                            *)
(***************************************************************************)
EXTENDS HJContainer, Json, IOUtils
W == INSTANCE HJWrite

Recs == ndJsonDeserialize(IOEnv.HJ_TRACE)

(* --------------------------- scalar contents --------------------------- *)
MatchScalar(rec, i, f, n) ==
  IF i = 0 THEN n.t = "null"
  ELSE LET c == rec.cs[i]
       IN CASE f = "r" -> n = c
            [] f = "c" -> IF c.t = "func" THEN n.t = "str" ELSE n = c
            [] f = "p" -> W!Same(c, n) /\ (c.t = "int" => n.k = W!Narrowest(c.n, [n |-> c.n, d |-> c.d]))

(* ------------------------- what is seen of a slot ---------------------- *)
RECURSIVE Match(_, _, _, _)
MatchSeq(rec, h, cells, obs) == Len(cells) = Len(obs) /\ \A n \in 1..Len(cells) : Match(rec, h, cells[n], obs[n])
Match(rec, h, x, o) ==
  IF x = 0 THEN o.t = "leaf" /\ rec.tab[o.i].t = "null"
  ELSE CASE h[x].o = "val" /\ h[x].p = 0 -> o.t = "leaf" /\ MatchScalar(rec, h[x].i, h[x].f, rec.tab[o.i])
         [] h[x].o = "val" /\ h[x].p # 0 -> Match(rec, h, h[x].p, o)
         [] h[x].o = "arr" -> o.t = "arr" /\ o.len = Len(h[x].vs) /\ MatchSeq(rec, h, h[x].vs, o.vs)
         [] h[x].o = "map" -> o.t = "map" /\ o.ks = h[x].ks /\ MatchSeq(rec, h, h[x].vs, o.vs)

MatchSlot(rec, h, x, o) ==
  IF x = 0 THEN o.t = "none"
  ELSE CASE h[x].o = "val" -> o.t = "val" /\ Match(rec, h, x, o.c)
         [] h[x].o = "arr" -> Match(rec, h, x, o)
         [] h[x].o = "map" ->
              /\ Match(rec, h, x, o)
              /\ MatchSeq(rec, h, h[x].vs, o.vals) /\ o.len = Len(h[x].vs)
              /\ Range(o.has) = Range(h[x].ks)
              /\ Range(o.get) \subseteq Range(h[x].ks)
              /\ {k \in Range(h[x].ks) : ~IsNullCell(h, MapCell(h[x], k))} \subseteq Range(o.get)
              /\ Range(o.null) = {k \in 1..rec.nk : IsNullCell(h, MapCell(h[x], k))}

(* ----------------------- which property is broken ---------------------- *)
Own(op) == IF op.op \in MapOps THEN {"C09"} ELSE IF op.op \in ArrOps THEN {"C10"} ELSE IF op.op \in ValOps THEN {"C14"} ELSE {}
ResTags(op) ==
  CASE op.op = "clone" -> {"C12"}
    [] op.op = "reparse" -> {"C08"}
    [] op.op = "badparse" -> {"C03"}
    [] OTHER -> Own(op)

SlotTags(s, op, ok, s2, n, cloned) ==
  IF op.op \in DstOps /\ n = op.d
  THEN CASE op.op = "clone" -> {"C12"}
         [] op.op = "reparse" -> {"C08", "C22"}
         [] op.op \in {"newmap", "mapof", "mvals"} -> {"C09"}
         [] op.op \in {"newarr", "arrof"} -> {"C10"}
         [] op.op = "newval" -> {"C14"}
         [] OTHER -> {"C11"}
  ELSE IF op.op \in Mutators /\ ok /\ n = op.s THEN Own(op)
  ELSE IF op.op \in Mutators /\ ok /\ s.sl[op.s] \in Reach(s2.h, s2.sl[n]) THEN {"C11"}
  ELSE {"C22"} \cup (IF cloned THEN {"C12"} ELSE {})
       \cup (IF op.op \in Mutators /\ n = op.s THEN Own(op) ELSE {})
       \* something the two have in common was changed in passing
       \cup (IF op.op \in Mutators /\ s.sl[op.s] # 0 /\ s.sl[n] # 0 /\ Reach(s.h, s.sl[op.s]) \cap Reach(s.h, s.sl[n]) # {}
             THEN {"C11"} ELSE {})

\* which slots showed what was done to the objects of one slot; 0 is a clone
\* made just before, which shows nothing
PokeTags(s, op, pk, cl) ==
  LET may == IF op.y = 1 THEN Touchable(s, op.s) ELSE Pokable(s, op.s)
  IN IF -1 \in pk THEN {}
     ELSE (IF pk \subseteq may THEN {} ELSE {"C22"} \cup (IF cl \/ 0 \in pk THEN {"C12"} ELSE {}))
          \cup (IF op.y = 1 /\ ~(Shown(s, op.s) \subseteq pk) THEN {"C11"} ELSE {})

\* Large histories are looked at now and then: what is wrong then may be the
\* fault of any operation since the last look. a.subj are the slots that were
\* subject of a change since, a.new those that got another object.
LateTags(a, s2, n, cl) ==
  (IF n \in a.subj \cup a.new
   THEN (IF IsMapId(s2.h, s2.sl[n]) THEN {"C09"} ELSE IF IsArrId(s2.h, s2.sl[n]) THEN {"C10"} ELSE {"C14"})
        \cup (IF n \in a.new /\ cl THEN {"C12"} ELSE {})
   ELSE IF \E m \in a.subj : s2.sl[m] \in Reach(s2.h, s2.sl[n]) THEN {"C11"}
   ELSE {"C22"} \cup (IF cl THEN {"C12"} ELSE {}))

\* a = [s, prev, ok, cloned, at, tags, why, subj, new]
JudgeStep(rec, a, st) ==
  LET op  == st.op
      r   == Step(a.s, op)
      obs == FoldLeft(LAMBDA p, c : [p EXCEPT ![c.n] = c.o], a.prev, st.ch)
      look == st.ob = 1
      bad == IF ~look THEN {} ELSE {n \in 1..rec.ns : ~MatchSlot(rec, r.st.h, r.st.sl[n], obs[n])}
      done == r.r \cap {"ok", "true"} # {}
      cl  == a.cloned \/ op.op = "clone"
      b   == [a EXCEPT !.subj = IF op.op \in Mutators /\ done THEN @ \cup {op.s} ELSE @,
                       !.new  = IF op.op \in DstOps /\ done THEN @ \cup {op.d} ELSE @]
      \* the subject itself is wrong: what contains it is wrong for that reason
      own == op.op \in Mutators /\ op.s \in bad
      blame == IF own THEN {n \in bad : n = op.s \/ ~(a.s.sl[op.s] \in Reach(r.st.h, r.st.sl[n]))} ELSE bad
      tags == (IF st.r = "panic" THEN {"C19"} \cup ResTags(op) ELSE IF st.r \in r.r THEN {} ELSE ResTags(op))
              \cup (IF ~look \/ st.sn = r.st.sn THEN {} ELSE IF op.op = "mkeys" /\ Front(r.st.sn) = Front(st.sn) THEN {"C09"} ELSE {"C11"})
              \cup UNION {IF rec.late = 1 THEN LateTags(b, r.st, n, cl) ELSE SlotTags(a.s, op, done, r.st, n, cl) : n \in blame}
              \cup (IF op.op # "poke" THEN {} ELSE PokeTags(a.s, op, ToSet(st.pk), cl))
              \cup (IF \E n \in bad : obs[n].t = "panic" THEN {"C19"} ELSE {})
  IN IF tags = {} THEN [b EXCEPT !.subj = IF look THEN {} ELSE @, !.new = IF look THEN {} ELSE @, !.s = r.st, !.prev = obs, !.cloned = cl, !.at = @ + 1]
     ELSE [a EXCEPT !.tags = tags, !.at = @ + 1, !.why = [op |-> op.op, slots |-> SetToSeq(bad), r |-> SetToSeq(r.r)]]

Judge(rec) ==
  IF rec.steps = <<>> /\ "dead" \in DOMAIN rec
  THEN [at |-> 0, tags |-> {"C09", "C10", "C11", "C12", "C19", "C22"}, why |-> [op |-> "dead", slots |-> <<>>, r |-> <<>>]]
  ELSE FoldLeft(LAMBDA a, st : IF a.tags # {} THEN a ELSE JudgeStep(rec, a, st),
                [s |-> EmptyState(rec.ns), prev |-> [n \in 1..rec.ns |-> [t |-> "none"]], cloned |-> FALSE, at |-> 0, tags |-> {}, subj |-> {}, new |-> {},
                 why |-> [op |-> "", slots |-> <<>>, r |-> <<>>]], rec.steps)

VARIABLES i, verdict
vars == <<i, verdict>>
Init == i \in 1..Len(Recs) /\ verdict = "none"
Next == /\ verdict = "none"
        /\ LET r == Recs[i]
               j == Judge(r)
           IN /\ verdict' = "judged"
              /\ PrintT("V history")
              /\ IF j.tags = {} THEN TRUE
                 ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, want |-> [step |-> j.at, why |-> j.why], tags |-> SetToSeq(j.tags)]))
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
ASSUME PrintT(<<"RECORDS", Len(Recs)>>)
=============================================================================
