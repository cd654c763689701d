---------------------------- MODULE MC_Container ----------------------------
(***************************************************************************)
(* Model checking of HJContainer over a small universe: every reachable    *)
(* state up to MaxOps operations, every operation in each of them.  Also   *)
(* the generator of the exhaustive part of the conformance suite: for      *)
(* every distinct state one shortest history, followed by each operation.  *)
(***************************************************************************)
EXTENDS HJContainer, Json
CONSTANTS NS, NK, NC, MaxOps, Emit, Kinds

VARIABLES st, hist, step
vars == <<st, hist, step>>
View == st

O(o, d, s, k, x, y) == [op |-> o, d |-> d, s |-> s, k |-> k, x |-> x, y |-> y]
S == 1..NS
Ops(s) ==
  LET maps == {n \in S : IsMapId(s.h, s.sl[n])}
      arrs == {n \in S : IsArrId(s.h, s.sl[n])}
      vals == {n \in S : IsValId(s.h, s.sl[n])}
      idx(n) == -1..Len(s.h[s.sl[n]].vs)
  IN     {O(o, d, 0, 0, 0, 0) : o \in {"newmap", "newarr"}, d \in S}
    \cup {O("newval", d, 0, 0, x, 0) : d \in S, x \in 0..NC}
    \cup {O("newref", d, 0, 0, x, 0) : d \in S, x \in maps \cup arrs}
    \cup {O("mapof", d, 0, 1, x, 0) : d \in S, x \in maps \cup arrs \cup vals}
    \cup {O("arrof", d, 0, 1, x, 0) : d \in S, x \in maps \cup arrs \cup vals}
    \cup {O("mset", 0, n, k, x, 0) : n \in maps, k \in 1..NK, x \in 0..NC}
    \cup {O("mref", 0, n, k, x, 0) : n \in maps, k \in 1..NK, x \in 0..NS}
    \cup {O("mrem", 0, n, k, 0, 0) : n \in maps, k \in 1..NK}
    \cup {O("mkeys", 0, n, 0, 0, 0) : n \in maps}
    \cup {O(o, d, n, k, 0, y) : o \in {"mgetm", "mgeta"}, d \in S, n \in maps, k \in 1..NK, y \in 0..1}
    \cup {O("mvals", d, n, 0, 0, 0) : d \in S, n \in maps}
    \cup {O("mgetv", d, n, k, 0, 0) : d \in S, n \in maps, k \in 1..NK}
    \cup {O("aapp", 0, n, 0, x, 0) : n \in arrs, x \in 0..NC}
    \cup {O("aref", 0, n, 0, x, 0) : n \in arrs, x \in 0..NS}
    \cup UNION {{O("aset", 0, n, i, x, 0) : i \in idx(n), x \in 0..NS} : n \in arrs}
    \cup UNION {{O("asetc", 0, n, i, x, 0) : i \in idx(n), x \in 0..NC} : n \in arrs}
    \cup UNION {{O("arem", 0, n, i, 0, 0) : i \in idx(n)} : n \in arrs}
    \cup UNION {{O(o, d, n, i, 0, 0) : o \in {"agetm", "agetv"}, d \in S, i \in idx(n)} : n \in arrs}
    \cup {O("aself", d, n, 0, 0, 0) : d \in S, n \in arrs}
    \cup {O("vset", 0, n, 0, x, 0) : n \in vals, x \in 0..NC}
    \cup {O("vref", 0, n, 0, x, 0) : n \in vals, x \in maps \cup arrs}
    \cup {O(o, d, n, 0, 0, y) : o \in {"vgetm", "vgeta"}, d \in S, n \in vals, y \in 0..1}
    \cup {O("clone", d, n, 0, 0, 0) : d \in S, n \in {m \in S : s.sl[m] # 0}}
    \cup {O("reparse", d, n, 0, 0, 0) : d \in S, n \in maps}
    \cup {O("query", 0, n, 0, 0, 0) : n \in {m \in S : s.sl[m] # 0}}

Init == st = EmptyState(NS) /\ hist = <<>> /\ step = [from |-> EmptyState(NS), op |-> O("badparse", 0, 0, 0, 0, 0), to |-> EmptyState(NS)]
Next == /\ Len(hist) < MaxOps
        /\ \E op \in {p \in Ops(st) : p.op \in Kinds} :
             /\ Enabled(st, op, NC, 24) = TRUE
             /\ LET s2 == Step(st, op).st
                IN /\ st' = Canon(s2)
                   /\ hist' = Append(hist, op)
                   /\ step' = [from |-> st, op |-> op, to |-> s2]
                   /\ IF Emit THEN PrintT("CASE " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* the laws are checked on every transition (ACTION_CONSTRAINT is evaluated
\* for each of them, also those that lead to a state seen before)
MapKinds == {"newmap", "mset", "mrem", "mkeys", "mvals", "mgetv", "vset", "clone", "query"}
ArrKinds == {"newarr", "aapp", "aset", "asetc", "arem", "agetv", "newval", "vset", "clone"}
CloneKinds == {"newmap", "newarr", "mset", "mref", "aapp", "aref", "clone", "mgetm", "mgeta", "agetv", "vset", "vgetm", "mrem", "arem", "asetc"}
AllKinds == MapOps \cup ArrOps \cup ValOps \cup DstOps \cup Mutators \cup {"query"}
Laws == LET s == step'.from  op == step'.op  s2 == step'.to
        IN /\ Assert(DictLaw(s, op, s2), <<"DictLaw", step'>>)
           /\ Assert(FrameLaw(s, op, s2), <<"FrameLaw", step'>>)
           /\ Assert(LiveLaw(s, op, s2), <<"LiveLaw", step'>>)
           /\ Assert(CloneLaw(s, op, s2), <<"CloneLaw", step'>>)
           /\ Assert(SnapLaw(s, op, s2), <<"SnapLaw", step'>>)
           /\ Assert(PokeLaw(s, op, s2), <<"PokeLaw", step'>>)
           /\ Assert(TouchLaw(s, op, s2), <<"TouchLaw", step'>>)
WF == WellFormed(st)
=============================================================================
