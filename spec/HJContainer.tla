---------------------------- MODULE HJContainer ----------------------------
(***************************************************************************)
(* Maps, arrays and values as objects on a heap, the operations on them,   *)
(* and what a client that holds some of them in slots can observe.         *)
(*                                                                         *)
(* An object is one of                                                     *)
(*   [o |-> "map", ks |-> keys, vs |-> cells]   insertion ordered          *)
(*   [o |-> "arr", vs |-> cells]                                           *)
(*   [o |-> "val", i |-> content, f |-> form, p |-> object]                *)
(* A cell is the identity of a "val" object, or 0 for no value at all.     *)
(* The content of a value is a reference p to a map or an array, or, with  *)
(* p = 0, scalar content number i (0 is null).  The form of scalar content *)
(* tells how it came here: "r" set, "c" through a clone, "p" parsed.       *)
(*                                                                         *)
(* Keys and contents are numbers here; a trace says what they stand for.   *)
(*                                                                         *)
(* A state is [h |-> heap, sl |-> slots, sn |-> key lists handed out].     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MapObj == [o |-> "map", ks |-> <<>>, vs |-> <<>>]
ArrObj == [o |-> "arr", vs |-> <<>>]
ValObj(i) == [o |-> "val", i |-> i, f |-> "r", p |-> 0]
RefObj(p) == [o |-> "val", i |-> 0, f |-> "r", p |-> p]

IsMapId(h, x) == x # 0 /\ h[x].o = "map"
IsArrId(h, x) == x # 0 /\ h[x].o = "arr"
IsValId(h, x) == x # 0 /\ h[x].o = "val"

EmptyState(ns) == [h |-> <<>>, sl |-> [n \in 1..ns |-> 0], sn |-> <<>>]

(* ------------------------------ structure ------------------------------ *)
Kids(h, x) == IF x = 0 THEN <<>>
              ELSE IF h[x].o = "val" THEN (IF h[x].p = 0 THEN <<>> ELSE <<h[x].p>>)
              ELSE SelectSeq(h[x].vs, LAMBDA y : y # 0)
RECURSIVE Reach(_, _)          \* the objects inside x, with x
Reach(h, x) == IF x = 0 THEN {}
               ELSE {x} \cup UNION {Reach(h, Kids(h, x)[n]) : n \in 1..Len(Kids(h, x))}
RECURSIVE Size(_, _)
Size(h, x) == IF x = 0 THEN 1
              ELSE FoldLeft(LAMBDA a, y : a + Size(h, y), 1, Kids(h, x))

(* what can be seen of an object, whatever the identities *)
RECURSIVE Tree(_, _)
Tree(h, x) ==
  IF x = 0 THEN [t |-> "leaf", i |-> 0]
  ELSE CASE h[x].o = "val" -> IF h[x].p = 0 THEN [t |-> "leaf", i |-> h[x].i] ELSE Tree(h, h[x].p)
         [] h[x].o = "arr" -> [t |-> "arr", vs |-> [n \in 1..Len(h[x].vs) |-> Tree(h, h[x].vs[n])]]
         [] h[x].o = "map" -> [t |-> "map", ks |-> h[x].ks, vs |-> [n \in 1..Len(h[x].vs) |-> Tree(h, h[x].vs[n])]]

(* --------------------- the dictionary and the sequence ----------------- *)
KeyPos(m, k) == LET ns == {n \in 1..Len(m.ks) : m.ks[n] = k} IN IF ns = {} THEN 0 ELSE CHOOSE n \in ns : TRUE
MapPut(m, k, c) == LET n == KeyPos(m, k)
                   IN IF n = 0 THEN [m EXCEPT !.ks = Append(@, k), !.vs = Append(@, c)]
                      ELSE [m EXCEPT !.vs[n] = c]
MapDel(m, k) == LET n == KeyPos(m, k) IN [m EXCEPT !.ks = RemoveAt(@, n), !.vs = RemoveAt(@, n)]
MapCell(m, k) == LET n == KeyPos(m, k) IN IF n = 0 THEN 0 ELSE m.vs[n]
IsNullCell(h, c) == c = 0 \/ (h[c].p = 0 /\ h[c].i = 0)

(* -------------------- copies: clone and parse again -------------------- *)
\* [h, id]: the heap with a fresh copy of x, and its identity. Cells with no
\* value become values that hold null.
RECURSIVE Copy(_, _, _), CopyAll(_, _, _)
CopyAll(h, cs, f) == FoldLeft(LAMBDA a, c : LET r == Copy(a.h, c, f) IN [h |-> r.h, ids |-> Append(a.ids, r.id)],
                              [h |-> h, ids |-> <<>>], cs)
Copy(h, x, f) ==
  IF x = 0 THEN [h |-> Append(h, ValObj(0)), id |-> Len(h) + 1]
  ELSE CASE h[x].o = "val" /\ h[x].p = 0 ->
              [h |-> Append(h, [h[x] EXCEPT !.f = IF f = "c" /\ @ # "r" THEN @ ELSE f]), id |-> Len(h) + 1]
         [] h[x].o = "val" /\ h[x].p # 0 ->
              LET r == Copy(h, h[x].p, f) IN [h |-> Append(r.h, RefObj(r.id)), id |-> Len(r.h) + 1]
         [] OTHER ->
              LET r == CopyAll(h, h[x].vs, f)
              IN [h |-> Append(r.h, [h[x] EXCEPT !.vs = r.ids]), id |-> Len(r.h) + 1]

(* ------------------------------ operations ----------------------------- *)
(* op = [op, d, s, k, x, y]: d destination slot, s subject slot, k key or  *)
(* index, x content or slot, y variant.                                    *)

\* the cell that putting the object of slot x into a container needs: a value
\* is put in as it is, a map or an array inside a new value
CellFor(s, x) ==
  IF x = 0 THEN [h |-> s.h, c |-> 0]
  ELSE IF IsValId(s.h, s.sl[x]) THEN [h |-> s.h, c |-> s.sl[x]]
  ELSE [h |-> Append(s.h, RefObj(s.sl[x])), c |-> Len(s.h) + 1]
ContentCell(s, i) == [h |-> Append(s.h, ValObj(i)), c |-> Len(s.h) + 1]

Res(s, r) == [st |-> s, r |-> r]
PutIn(s, m, k, cc) == [s EXCEPT !.h = [cc.h EXCEPT ![m] = MapPut(@, k, cc.c)]]
NewIn(s, d, obj) == [s EXCEPT !.h = Append(@, obj), !.sl[d] = Len(s.h) + 1]

\* reading a map or an array (want) out of a cell into slot d; y = 1 is the
\* form that gives a value and not a pointer, it has no way to say nil
ReadCell(s, d, c, want, y) ==
  IF IsNullCell(s.h, c) THEN (IF y = 1 THEN Res(s, {"err"}) ELSE Res([s EXCEPT !.sl[d] = 0], {"nil"}))
  ELSE IF s.h[c].p # 0 /\ s.h[s.h[c].p].o = want THEN Res([s EXCEPT !.sl[d] = s.h[c].p], {"ok"})
  ELSE Res(s, {"err"})

InRange(a, i) == i >= 0 /\ i < Len(a.vs)

Step(s, op) ==
  LET h   == s.h
      sid == IF op.s = 0 THEN 0 ELSE s.sl[op.s]
      sub == IF sid = 0 THEN ArrObj ELSE h[sid]
  IN
  CASE op.op = "newmap"  -> Res(NewIn(s, op.d, MapObj), {"ok"})
    [] op.op = "newarr"  -> Res(NewIn(s, op.d, ArrObj), {"ok"})
    [] op.op = "newval"  -> Res(NewIn(s, op.d, ValObj(op.x)), {"ok"})
    \* a value around the object of slot x
    [] op.op = "newref"  -> Res(NewIn(s, op.d, RefObj(s.sl[op.x])), {"ok"})
    \* a map with one key / an array with one element, made of slot x
    [] op.op = "mapof"   -> LET cc == CellFor(s, op.x)
                            IN Res([s EXCEPT !.h = Append(cc.h, [MapObj EXCEPT !.ks = <<op.k>>, !.vs = <<cc.c>>]), !.sl[op.d] = Len(cc.h) + 1], {"ok"})
    [] op.op = "arrof"   -> LET cc == CellFor(s, op.x)
                                c2 == ContentCell([s EXCEPT !.h = cc.h], op.k)
                            IN Res([s EXCEPT !.h = Append(c2.h, [ArrObj EXCEPT !.vs = <<cc.c, c2.c>>]), !.sl[op.d] = Len(c2.h) + 1], {"ok"})
    \* ---- maps ----
    [] op.op = "mset"    -> Res(PutIn(s, sid, op.k, ContentCell(s, op.x)), {"ok"})
    [] op.op = "mref"    -> Res(PutIn(s, sid, op.k, CellFor(s, op.x)), {"ok"})
    [] op.op = "mrem"    -> IF KeyPos(sub, op.k) = 0 THEN Res(s, {"false"})
                            ELSE Res([s EXCEPT !.h[sid] = MapDel(sub, op.k)], {"true"})
    [] op.op = "mkeys"   -> Res([s EXCEPT !.sn = Append(@, sub.ks)], {"ok"})
    \* the list of values, an array of its own
    [] op.op = "mvals"   -> Res(NewIn(s, op.d, [ArrObj EXCEPT !.vs = sub.vs]), {"ok"})
    [] op.op = "mgetm"   -> ReadCell(s, op.d, MapCell(sub, op.k), "map", op.y)
    [] op.op = "mgeta"   -> ReadCell(s, op.d, MapCell(sub, op.k), "arr", op.y)
    [] op.op = "mgetv"   -> Res([s EXCEPT !.sl[op.d] = MapCell(sub, op.k)], {IF MapCell(sub, op.k) = 0 THEN "nil" ELSE "ok"})
    \* ---- arrays ----
    [] op.op = "aapp"    -> LET cc == ContentCell(s, op.x) IN Res([s EXCEPT !.h = [cc.h EXCEPT ![sid].vs = Append(@, cc.c)]], {"ok"})
    [] op.op = "aref"    -> LET cc == CellFor(s, op.x) IN Res([s EXCEPT !.h = [cc.h EXCEPT ![sid].vs = Append(@, cc.c)]], {"ok"})
    [] op.op = "aset"    -> IF ~InRange(sub, op.k) THEN Res(s, {"false"})
                            ELSE LET cc == CellFor(s, op.x) IN Res([s EXCEPT !.h = [cc.h EXCEPT ![sid].vs[op.k + 1] = cc.c]], {"true"})
    [] op.op = "asetc"   -> IF ~InRange(sub, op.k) THEN Res(s, {"false"})
                            ELSE LET cc == ContentCell(s, op.x) IN Res([s EXCEPT !.h = [cc.h EXCEPT ![sid].vs[op.k + 1] = cc.c]], {"true"})
    [] op.op = "arem"    -> IF ~InRange(sub, op.k) THEN Res(s, {"false"})
                            ELSE Res([s EXCEPT !.h[sid].vs = RemoveAt(@, op.k + 1)], {"true"})
    [] op.op = "agetm"   -> IF ~InRange(sub, op.k) THEN Res(s, {"err"}) ELSE ReadCell(s, op.d, sub.vs[op.k + 1], "map", 1)
    [] op.op = "agetv"   -> Res([s EXCEPT !.sl[op.d] = sub.vs[op.k + 1]], {IF sub.vs[op.k + 1] = 0 THEN "nil" ELSE "ok"})
    [] op.op = "aself"   -> Res([s EXCEPT !.sl[op.d] = sid], {"ok"})
    \* ---- values ----
    [] op.op = "vset"    -> Res([s EXCEPT !.h[sid] = ValObj(op.x)], {"ok"})
    [] op.op = "vref"    -> Res([s EXCEPT !.h[sid] = RefObj(s.sl[op.x])], {"ok"})
    [] op.op = "vgetm"   -> ReadCell(s, op.d, sid, "map", op.y)
    [] op.op = "vgeta"   -> ReadCell(s, op.d, sid, "arr", op.y)
    \* ---- all ----
    [] op.op = "clone"   -> LET r == Copy(h, sid, "c") IN Res([s EXCEPT !.h = r.h, !.sl[op.d] = r.id], {"ok"})
    [] op.op = "reparse" -> LET r == Copy(h, sid, "p") IN Res([s EXCEPT !.h = r.h, !.sl[op.d] = r.id], {"ok"})
    [] op.op = "badparse" -> Res(s, {"err"})
    [] op.op = "query"   -> Res(s, {"ok"})
    \* the client writes through the pointers it finds in slot s, looks, and
    \* writes back what was there
    [] op.op = "poke"    -> Res(s, {"ok"})

MapOps == {"mset", "mref", "mrem", "mkeys", "mvals", "mgetm", "mgeta", "mgetv"}
ArrOps == {"aapp", "aref", "aset", "asetc", "arem", "agetm", "agetv", "aself"}
ValOps == {"vset", "vref", "vgetm", "vgeta"}
DstOps == {"newmap", "newarr", "newval", "newref", "mapof", "arrof", "mvals", "mgetm", "mgeta", "mgetv", "agetm", "agetv", "aself",
           "vgetm", "vgeta", "clone", "reparse"}
RefOps == {"newref", "mapof", "arrof", "mref", "aref", "aset", "vref"}
\* these change an object when they succeed
Mutators == {"mset", "mref", "mrem", "aapp", "aref", "aset", "asetc", "arem", "vset", "vref"}

(***************************************************************************)
(* When an operation may be done: subject of the right kind, no container  *)
(* inside itself, values holding values left out (nothing is promised      *)
(* about them), content without a JSON form not parsed.  nj is the number  *)
(* of the last content that has one; cap bounds the size.                  *)
(***************************************************************************)
Contents(h, x) == {h[y].i : y \in {z \in Reach(h, x) : h[z].o = "val" /\ h[z].p = 0}}
PlainCell(s, c, nj) == c = 0 \/ s.h[c].p # 0 \/ s.h[c].i <= nj
Enabled(s, op, nj, cap) ==
  LET h   == s.h
      sid == IF op.s = 0 THEN 0 ELSE s.sl[op.s]
      xid == IF op.op \in RefOps /\ op.x # 0 THEN s.sl[op.x] ELSE 0
  IN /\ op.op \in MapOps => IsMapId(h, sid)
     /\ op.op \in ArrOps => IsArrId(h, sid)
     /\ op.op \in ValOps => IsValId(h, sid)
     /\ op.op \in RefOps /\ op.x # 0 => xid # 0
     /\ op.op \in {"newref", "vref"} => op.x # 0 /\ (IsMapId(h, xid) \/ IsArrId(h, xid))
     /\ op.op \in {"mref", "aref", "aset", "vref"} /\ op.x # 0 =>
          /\ sid \notin Reach(h, xid)
          /\ Size(h, sid) + Size(h, xid) <= cap
     /\ op.op \in {"mapof", "arrof"} => op.x # 0 /\ Size(h, xid) < cap
     /\ op.op \in {"mset", "aapp", "vset"} => Size(h, sid) < cap
     /\ op.op = "mgetv" => LET c == MapCell(h[sid], op.k) IN c = 0 \/ ~IsNullCell(h, c)
     /\ op.op = "agetv" => InRange(h[sid], op.k) /\ ~IsNullCell(h, h[sid].vs[op.k + 1])
     /\ op.op = "mgeta" => PlainCell(s, MapCell(h[sid], op.k), nj)
     /\ op.op = "vgeta" => PlainCell(s, sid, nj)
     /\ op.op = "clone" => sid # 0 /\ Size(h, sid) <= cap
     /\ op.op = "reparse" => IsMapId(h, sid) /\ \A i \in Contents(h, sid) : i <= nj
     /\ op.op = "query" => sid # 0
     /\ op.op = "mkeys" => Len(s.sn) < 6

(* ------------------ a canonical form of the heap ----------------------- *)
(* Objects are numbered as they are found from the slots; what no slot     *)
(* reaches is dropped.                                                     *)
RECURSIVE Visit(_, _, _)
Visit(h, order, x) == IF x = 0 \/ x \in Range(order) THEN order
                      ELSE FoldLeft(LAMBDA a, y : Visit(h, a, y), Append(order, x), Kids(h, x))
Canon(s) ==
  LET order == FoldLeft(LAMBDA a, x : Visit(s.h, a, x), <<>>, s.sl)
      num(x) == IF x = 0 THEN 0 ELSE CHOOSE n \in 1..Len(order) : order[n] = x
      obj(x) == IF s.h[x].o = "val" THEN [s.h[x] EXCEPT !.p = num(@)]
                ELSE [s.h[x] EXCEPT !.vs = [n \in 1..Len(@) |-> num(@[n])]]
  IN [s EXCEPT !.h = [n \in 1..Len(order) |-> obj(order[n])], !.sl = [n \in 1..Len(s.sl) |-> num(s.sl[n])]]

(* ---------------------- properties of the model ------------------------ *)
WellFormed(s) ==
  \A x \in 1..Len(s.h) :
    /\ s.h[x].o = "map" => /\ Len(s.h[x].ks) = Len(s.h[x].vs)
                           /\ \A a, b \in 1..Len(s.h[x].ks) : a # b => s.h[x].ks[a] # s.h[x].ks[b]
    /\ s.h[x].o \in {"map", "arr"} => \A n \in 1..Len(s.h[x].vs) : s.h[x].vs[n] = 0 \/ s.h[s.h[x].vs[n]].o = "val"
    /\ s.h[x].o = "val" => s.h[x].p = 0 \/ s.h[s.h[x].p].o \in {"map", "arr"}

(* C09/C10: what a mutation does to its subject, said without the code     *)
DictLaw(s, op, s2) ==
  op.op \in {"mset", "mref", "mrem"} =>
    LET m == s.h[s.sl[op.s]]  m2 == s2.h[s.sl[op.s]]
        ks == SelectSeq(m.ks, LAMBDA k : k # op.k)
        ks2 == SelectSeq(m2.ks, LAMBDA k : k # op.k)
    IN /\ ks = ks2
       /\ \A k \in Range(ks) : MapCell(m, k) = MapCell(m2, k)
       /\ op.op = "mrem" => m2.ks = ks
       /\ op.op # "mrem" => m2.ks = IF op.k \in Range(m.ks) THEN m.ks ELSE Append(m.ks, op.k)

(* C22: an operation changes only what contains its subject                *)
FrameLaw(s, op, s2) ==
  \A n \in 1..Len(s.sl) :
     /\ s.sl[n] # 0
     /\ ~(op.op \in DstOps /\ n = op.d)
     /\ ~(op.op \in Mutators /\ s.sl[op.s] \in Reach(s.h, s.sl[n]))
     => s2.sl[n] = s.sl[n] /\ Tree(s2.h, s2.sl[n]) = Tree(s.h, s.sl[n])

(* C11: whoever contains the subject sees the change                       *)
LiveLaw(s, op, s2) ==
  op.op \in Mutators => \A n \in 1..Len(s.sl) : s.sl[n] = s.sl[op.s] => Tree(s2.h, s2.sl[n]) = Tree(s2.h, s2.sl[op.s])

(* C12: a clone is equal and shares nothing                                *)
CloneLaw(s, op, s2) ==
  op.op = "clone" => /\ Tree(s2.h, s2.sl[op.d]) = Tree(s.h, s.sl[op.s])
                     /\ Reach(s2.h, s2.sl[op.d]) \cap UNION {Reach(s2.h, s2.sl[n]) : n \in (1..Len(s2.sl)) \ {op.d}} = {}
(* C12, C22: a pointer belongs to one value: who writes through it changes *)
(* what the slots that hold this value show, and no other                  *)
ValsIn(h, x) == {y \in Reach(h, x) : h[y].o = "val"}
Pokable(s, n) == {m \in 1..Len(s.sl) : ValsIn(s.h, s.sl[m]) \cap ValsIn(s.h, s.sl[n]) # {}}
PokeLaw(s, op, s2) ==
  op.op = "clone" => Pokable(s2, op.d) \subseteq {op.d}
(* C11, C12, C22: who changes the objects found in one slot changes what   *)
(* the slots show that share one of them, and no other                     *)
Touchable(s, n) == {m \in 1..Len(s.sl) : Reach(s.h, s.sl[m]) \cap Reach(s.h, s.sl[n]) # {}}
\* a null value may have no object of its own
Objects(h, x) == {y \in Reach(h, x) : h[y].o # "val" \/ ~IsNullCell(h, y)}
Shown(s, n) == {m \in 1..Len(s.sl) : Objects(s.h, s.sl[m]) \cap Objects(s.h, s.sl[n]) # {}}
TouchLaw(s, op, s2) ==
  /\ op.op \in {"clone", "reparse"} => Touchable(s2, op.d) \subseteq {op.d}
  /\ \A n \in 1..Len(s2.sl) : Pokable(s2, n) \subseteq Touchable(s2, n)
SnapLaw(s, op, s2) == \A n \in 1..Len(s.sn) : s2.sn[n] = s.sn[n]
=============================================================================
