------------------------------ MODULE Gen_Hist ------------------------------
(***************************************************************************)
(* Long histories of HJContainer. Operations are drawn with weights, among *)
(* those the specification enables. The draws come from a generator that   *)
(* is part of the state (three linear congruences, Wichmann and Hill), so  *)
(* a history depends on its seed alone.                                    *)
(***************************************************************************)
EXTENDS HJContainer, Json
CONSTANTS NS, NK, NC, NJ, Depth, Cap, Weights, Lo, Hi    \* seeds Lo..Hi, one history each

VARIABLES g, st, hist, n
vars == <<g, st, hist, n>>

\* powers of the multipliers: draw number i of a step, and the next step
PA == <<171, 29241, 5826, 27638, 4134, 10727, 18177, 20829, 20286, 18240, 1333, 16060, 22050, 17194>>
PB == <<172, 29584, 27179, 7510, 18826, 25530, 26952, 29080, 1105, 8218, 19374, 28865, 24739, 12128>>
PC == <<170, 28900, 674, 23611, 11234, 29754, 24562, 21289, 10693, 28753, 6007, 20531, 3125, 15759>>
At(i) == <<(g[1] * PA[i]) % 30269, (g[2] * PB[i]) % 30307, (g[3] * PC[i]) % 30323>>
Below(i, m) == LET d == At(i) IN ((d[1] % m) + (d[2] % m) + (d[3] % m)) % m       \* 0..m-1
Seeded(s) == <<((s * 7919) % 30268) + 1, ((s * 6007 + 5) % 30306) + 1, ((s * 5003 + 17) % 30322) + 1>>

S == 1..NS
Pick(i, T) == SetToSortSeq(T, LAMBDA a, b : a < b)[Below(i, Cardinality(T)) + 1]
O(o, d, s, k, x, y) == [op |-> o, d |-> d, s |-> s, k |-> k, x |-> x, y |-> y]

\* a slot that holds such an object, or any
SlotOf(s, o) == LET T == {m \in S : s.sl[m] # 0 /\ s.h[s.sl[m]].o = o} IN IF T = {} THEN Pick(2, S) ELSE Pick(2, T)
AnySlot(s, i) == LET T == {m \in S : s.sl[m] # 0} IN IF T = {} THEN Pick(i, S) ELSE Pick(i, T)
\* a key of the map in slot m, or any key
KeyIn(s, m) == IF IsMapId(s.h, s.sl[m]) /\ s.h[s.sl[m]].ks # <<>> /\ Below(6, 3) > 0 THEN Pick(7, Range(s.h[s.sl[m]].ks)) ELSE Pick(7, 1..NK)
\* an index inside the array, or near its ends
IdxIn(s, m) == IF ~IsArrId(s.h, s.sl[m]) THEN 0
               ELSE LET l == Len(s.h[s.sl[m]].vs) IN IF l > 0 /\ Below(6, 6) > 0 THEN Pick(7, 0..(l - 1)) ELSE Pick(7, {-1, l, l + 1})
\* destinations rather overwrite empty slots
Dst(s) == LET T == {m \in S : s.sl[m] = 0} IN IF T # {} /\ Below(4, 4) > 0 THEN Pick(5, T) ELSE Pick(5, S)
RefX(s) == IF Below(10, 12) = 0 THEN 0 ELSE AnySlot(s, 11)

\* the subject of an operation, and the operation on subject m
Subject(s, o) == IF o \in MapOps \cup {"reparse"} THEN SlotOf(s, "map") ELSE IF o \in ArrOps THEN SlotOf(s, "arr")
                 ELSE IF o \in ValOps THEN SlotOf(s, "val") ELSE IF o \in {"clone", "query"} THEN AnySlot(s, 2) ELSE 0
Draw(s, o, m) ==
  CASE o \in {"newmap", "newarr"} -> O(o, Dst(s), 0, 0, 0, 0)
    [] o = "newval" -> O(o, Dst(s), 0, 0, Pick(8, 0..NC), 0)
    [] o = "newref" -> O(o, Dst(s), 0, 0, AnySlot(s, 11), 0)
    [] o = "mapof" -> O(o, Dst(s), 0, Pick(7, 1..NK), AnySlot(s, 11), 0)
    [] o = "arrof" -> O(o, Dst(s), 0, Pick(8, 0..NC), AnySlot(s, 11), 0)
    [] o = "mset" -> O(o, 0, m, IF Below(12, 3) = 0 THEN KeyIn(s, m) ELSE Pick(7, 1..NK), Pick(8, 0..NC), 0)
    [] o = "mref" -> O(o, 0, m, Pick(7, 1..NK), RefX(s), 0)
    [] o = "mrem" -> O(o, 0, m, KeyIn(s, m), 0, 0)
    [] o = "mkeys" -> O(o, 0, m, 0, 0, 0)
    [] o = "mvals" -> O(o, Dst(s), m, 0, 0, 0)
    [] o \in {"mgetm", "mgeta"} -> O(o, Dst(s), m, KeyIn(s, m), 0, Below(9, 2))
    [] o = "mgetv" -> O(o, Dst(s), m, KeyIn(s, m), 0, 0)
    [] o = "aapp" -> O(o, 0, m, 0, Pick(8, 0..NC), 0)
    [] o = "aref" -> O(o, 0, m, 0, RefX(s), 0)
    [] o = "aset" -> O(o, 0, m, IdxIn(s, m), RefX(s), 0)
    [] o = "asetc" -> O(o, 0, m, IdxIn(s, m), Pick(8, 0..NC), 0)
    [] o = "arem" -> O(o, 0, m, IdxIn(s, m), 0, 0)
    [] o \in {"agetm", "agetv"} -> O(o, Dst(s), m, IdxIn(s, m), 0, 0)
    [] o = "aself" -> O(o, Dst(s), m, 0, 0, 0)
    [] o = "vset" -> O(o, 0, m, 0, Pick(8, 0..NC), 0)
    [] o = "vref" -> O(o, 0, m, 0, AnySlot(s, 11), 0)
    [] o \in {"vgetm", "vgeta"} -> O(o, Dst(s), m, 0, 0, Below(9, 2))
    [] o \in {"clone", "reparse"} -> O(o, Dst(s), m, 0, 0, 0)
    [] o = "query" -> O(o, 0, m, 0, 0, 0)
    [] o = "badparse" -> O(o, 0, 0, 0, 0, 0)

\* Weights: a sequence of operation names, repeated by weight
WEven == <<"newmap", "newarr", "newval", "newref", "mapof", "arrof", "mset", "mset", "mset", "mset", "mset", "mref", "mref", "mref", "mref", "mrem", "mrem", "mkeys", "mvals",
           "mgetm", "mgetm", "mgeta", "mgeta", "mgetv", "mgetv", "aapp", "aapp", "aapp", "aref", "aref", "aref", "aset", "asetc", "asetc", "arem", "arem",
           "agetm", "agetv", "agetv", "aself", "vset", "vset", "vref", "vref", "vgetm", "vgeta", "clone", "clone", "clone", "reparse", "query", "query", "badparse">>
WDict == <<"newmap", "mset", "mset", "mset", "mset", "mset", "mset", "mset", "mset", "mrem", "mrem", "mrem", "mrem", "mkeys", "mvals", "arem", "asetc", "aapp", "mgetv", "clone", "mref", "newarr", "query">>
WSeq  == <<"newarr", "aapp", "aapp", "aapp", "aapp", "aapp", "aref", "aset", "asetc", "asetc", "arem", "arem", "agetv", "newval", "newmap", "clone", "aself", "query">>
WTree == <<"newmap", "newarr", "mset", "aapp", "mref", "mref", "mref", "aref", "aref", "aref", "clone", "clone", "clone", "mgetm", "mgeta", "mgetv", "agetm", "agetv", "vgetm", "vgeta",
           "vset", "vset", "vref", "mrem", "arem", "asetc", "reparse", "newref", "mapof", "arrof", "mvals">>
WOf == CASE Weights = "even" -> WEven [] Weights = "dict" -> WDict [] Weights = "seq" -> WSeq [] Weights = "tree" -> WTree

NewOps == {"newmap", "newarr", "newval", "newref", "mapof", "arrof", "badparse", "clone"}
Init == g \in {Seeded(s) : s \in Lo..Hi} /\ st = EmptyState(NS) /\ hist = <<>> /\ n = 0
Next == /\ n < Depth
        /\ n' = n + 1
        /\ g' = At(14)
        /\ LET o  == WOf[Below(1, Len(WOf)) + 1]
               op == Draw(st, o, Subject(st, o))
           IN /\ IF Enabled(st, op, NJ, Cap) = TRUE /\ (o \in NewOps /\ (\A q \in S : st.sl[q] # 0) => Below(3, 4) = 0)
                 THEN st' = Canon(Step(st, op).st) /\ hist' = Append(hist, op)
                 ELSE UNCHANGED <<st, hist>>
              /\ IF n' = Depth THEN PrintT("CASE " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
