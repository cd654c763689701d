------------------------------- MODULE HJText -------------------------------
(***************************************************************************)
(* Parse as a state machine: a pushdown transducer that reads one          *)
(* character per step and builds the document.  Step is total; a text is   *)
(* judged by the state reached after its last character:                   *)
(*                                                                         *)
(*   accept  the text is well formed: Parse must return this document      *)
(*   may     it uses a leniency whose meaning is clear: Parse may reject   *)
(*           it, but if it accepts, it must return this document           *)
(*   any     it uses a leniency without a defined meaning                  *)
(*   reject  Parse must reject it                                          *)
(*                                                                         *)
(* Nodes under construction carry number literals ([t |-> "num", l]) since *)
(* which stored numbers are right for a literal is a relation (HJNumber).  *)
(***************************************************************************)
EXTENDS HJNumber

NoNode == [t |-> "none"]
Frame(kind) == [k |-> kind, ks |-> <<>>, vs |-> <<>>, key |-> <<>>]

Init0 == [m |-> "start",   \* mode
          stk |-> <<>>,    \* open containers, innermost last
          buf |-> <<>>,    \* characters of the current string or atom
          a |-> "^",       \* state of the current atom
          isKey |-> FALSE, \* the current string is a key
          h |-> 0,         \* high surrogate waiting for its partner
          u |-> 0, uc |-> 0,   \* hex digits read and their value
          fl |-> "strict", \* strict < may < any
          root |-> NoNode]

Weaken(st, f) == IF st.fl = "any" \/ f = st.fl THEN st ELSE [st EXCEPT !.fl = f]
Dead(st) == [st EXCEPT !.m = "dead"]

\* frame f with value v added (the last value of a repeated key wins and
\* keeps the position of the first)
KeyIndex(ks, key) == LET S == {i \in 1..Len(ks) : ks[i] = key}
                     IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
AddTo(f, v) ==
  IF f.k = "arr" THEN [f EXCEPT !.vs = Append(f.vs, v)]
  ELSE LET i == KeyIndex(f.ks, f.key)
       IN IF i = 0 THEN [f EXCEPT !.ks = Append(f.ks, f.key), !.vs = Append(f.vs, v)]
          ELSE [f EXCEPT !.vs[i] = v]
NodeOf(f) == IF f.k = "map" THEN [t |-> "map", ks |-> f.ks, vs |-> f.vs]
             ELSE [t |-> "arr", vs |-> f.vs]

Top(st) == st.stk[Len(st.stk)]
\* a value is complete
Put(st, v) == [st EXCEPT !.stk[Len(st.stk)] = AddTo(Top(st), v), !.m = "after",
                         !.buf = <<>>, !.a = "^", !.h = 0]
Open(st, kind) == [st EXCEPT !.stk = Append(st.stk, Frame(kind)),
                             !.m = IF kind = "map" THEN "key1" ELSE "val1"]
Close(st) ==
  LET v    == NodeOf(Top(st))
      rest == Front(st.stk)
  IN IF rest = <<>> THEN [st EXCEPT !.stk = rest, !.root = v, !.m = "done"]
     ELSE Put([st EXCEPT !.stk = rest], v)

\* literals
TrueL  == <<116,114,117,101>>
FalseL == <<102,97,108,115,101>>
NullL  == <<110,117,108,108>>
IsWordPrefix(b) == \E w \in {TrueL, FalseL, NullL} :
                       Len(b) <= Len(w) /\ SubSeq(w, 1, Len(b)) = b
AtomStep(st, c) ==
  LET b == Append(st.buf, c)
      n == IF st.a = "w" THEN "!" ELSE NumStep(st.a, c)
      w == (st.buf = <<>> \/ st.a = "w") /\ IsWordPrefix(b)
  IN IF n # "!" THEN [st EXCEPT !.m = "atom", !.buf = b, !.a = n]
     ELSE IF w THEN [st EXCEPT !.m = "atom", !.buf = b, !.a = "w"]
     ELSE Dead(st)
AtomEnd(st) ==        \* the character after the atom has been read
  IF st.a = "w"
  THEN CASE st.buf = TrueL  -> Put(st, [t |-> "bool", b |-> 1])
         [] st.buf = FalseL -> Put(st, [t |-> "bool", b |-> 0])
         [] st.buf = NullL  -> Put(st, [t |-> "null"])
         [] OTHER -> Dead(st)
  ELSE IF st.a \notin NumFinal THEN Dead(st)
  ELSE LET cl == NumClass(st.buf)
           p  == Put(st, [t |-> "num", l |-> st.buf])
       IN IF cl = "no" THEN Dead(st) ELSE IF cl = "band" THEN Weaken(p, "any") ELSE p

StrEnd(st) ==
  LET s1 == IF st.h # 0 THEN Weaken(st, "any") ELSE st
  IN IF st.isKey
     THEN [s1 EXCEPT !.stk[Len(st.stk)].key = st.buf, !.m = "colon", !.buf = <<>>, !.h = 0]
     ELSE Put(s1, [t |-> "str", s |-> st.buf])
OpenStr(st, isKey) == [st EXCEPT !.m = "str", !.buf = <<>>, !.isKey = isKey, !.h = 0]

StrStep(st, c) ==
  LET s1 == IF st.h # 0 /\ c # BSL THEN Weaken([st EXCEPT !.h = 0], "any") ELSE st
  IN CASE c = Q   -> StrEnd(s1)
       [] c = BSL -> [s1 EXCEPT !.m = "esc"]
       [] c < 32 \/ c >= BadByte -> Weaken([s1 EXCEPT !.buf = Append(s1.buf, c)], "may")
       [] OTHER   -> [s1 EXCEPT !.buf = Append(s1.buf, c)]
EscOf(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13
              [] c = 116 -> 9 [] c \in {Q, BSL, SLASH} -> c [] OTHER -> -1
EscStep(st, c) ==
  IF c = 117 THEN [st EXCEPT !.m = "hex", !.u = 0, !.uc = 0]
  ELSE LET s1 == IF st.h # 0 THEN Weaken([st EXCEPT !.h = 0], "any") ELSE st
           e  == EscOf(c)
       IN IF e >= 0 THEN [s1 EXCEPT !.m = "str", !.buf = Append(s1.buf, e)]
          ELSE Weaken([s1 EXCEPT !.m = "str"], "any")
HexEnd(st, code) ==
  IF st.h # 0
  THEN IF IsLowSur(code)
       THEN [st EXCEPT !.m = "str", !.h = 0, !.buf = Append(st.buf, Combine(st.h, code))]
       ELSE Weaken([st EXCEPT !.m = "str", !.h = 0], "any")
  ELSE IF IsHighSur(code) THEN [st EXCEPT !.m = "str", !.h = code]
  ELSE IF IsLowSur(code) THEN Weaken([st EXCEPT !.m = "str"], "any")
  ELSE [st EXCEPT !.m = "str", !.buf = Append(st.buf, code)]
HexStep(st, c) ==
  IF IsHex(c)
  THEN LET code == st.uc * 16 + HexVal(c)
       IN IF st.u = 3 THEN HexEnd(st, code) ELSE [st EXCEPT !.u = st.u + 1, !.uc = code]
  ELSE StrStep(Weaken([st EXCEPT !.m = "str", !.h = 0], "any"), c)   \* unknown escape

\* where a value is expected
ValStep(st, c) ==
  CASE c = LBR -> Open(st, "map")
    [] c = LSQ -> Open(st, "arr")
    [] c = Q   -> OpenStr(st, FALSE)
    [] OTHER   -> AtomStep([st EXCEPT !.buf = <<>>, !.a = "^"], c)
\* after a complete value
AfterStep(st, c) ==
  CASE c = COMMA -> [st EXCEPT !.m = IF Top(st).k = "map" THEN "key" ELSE "val"]
    [] c = RBR /\ Top(st).k = "map" -> Close(st)
    [] c = RSQ /\ Top(st).k = "arr" -> Close(st)
    [] OTHER -> Dead(st)

Step(st, c) ==
  CASE st.m = "str"  -> StrStep(st, c)
    [] st.m = "esc"  -> EscStep(st, c)
    [] st.m = "hex"  -> HexStep(st, c)
    [] st.m \in {"dead", "open"} -> st
    [] c = BSL /\ st.m # "start" -> [st EXCEPT !.m = "open"]   \* backslash outside a string
    [] st.m = "atom" -> IF IsWs(c) THEN AtomEnd(st)
                        ELSE IF c \in {COMMA, RBR, RSQ}
                             THEN LET s1 == AtomEnd(st) IN IF s1.m = "after" THEN AfterStep(s1, c) ELSE s1
                        ELSE AtomStep(st, c)
    [] IsWs(c) -> IF st.m \in {"start", "done"} THEN Weaken(st, "may") ELSE st
    [] st.m = "start" -> IF c = LBR THEN Open(st, "map") ELSE Dead(st)
    [] st.m = "key1"  -> IF c = Q THEN OpenStr(st, TRUE) ELSE IF c = RBR THEN Close(st) ELSE Dead(st)
    [] st.m = "key"   -> IF c = Q THEN OpenStr(st, TRUE) ELSE Dead(st)
    [] st.m = "colon" -> IF c = COLON THEN [st EXCEPT !.m = "val"] ELSE Dead(st)
    [] st.m = "val1"  -> IF c = RSQ THEN Close(st) ELSE ValStep(st, c)
    [] st.m = "val"   -> ValStep(st, c)
    [] st.m = "after" -> AfterStep(st, c)
    [] OTHER -> Dead(st)                                       \* after the end

Run(txt) == FoldLeft(Step, Init0, txt)
Verdict(st) ==
  CASE st.m = "open" -> "any"
    [] st.m = "done" -> (IF st.fl = "strict" THEN "accept" ELSE st.fl)
    [] OTHER -> "reject"

(* ------------- a stored document is the one that was written ----------- *)
RECURSIVE Match(_, _)
Match(x, o) ==
  CASE x.t = "num"  -> NumFaithful(x.l, o)
    [] x.t = "null" -> o.t = "null"
    [] x.t = "bool" -> o.t = "bool" /\ o.b = x.b
    [] x.t = "str"  -> o.t = "str" /\ o.s = x.s
    [] x.t = "arr"  -> /\ o.t = "arr" /\ Len(o.vs) = Len(x.vs)
                       /\ \A i \in 1..Len(x.vs) : Match(x.vs[i], o.vs[i])
    [] x.t = "map"  -> /\ o.t = "map" /\ o.ks = x.ks /\ Len(o.vs) = Len(x.vs)
                       /\ \A i \in 1..Len(x.vs) : Match(x.vs[i], o.vs[i])
    [] OTHER -> FALSE

(* ------------- a written text denotes a stored document ---------------- *)
RECURSIVE Denotes(_, _)
Denotes(x, o) ==
  CASE o.t \in {"int", "flt"} -> x.t = "num" /\ NumDenotes(x.l, o)
    [] o.t = "null" -> x.t = "null"
    [] o.t = "bool" -> x.t = "bool" /\ o.b = x.b
    [] o.t \in {"str", "err", "time"} -> x.t = "str" /\ x.s = o.s
    [] o.t \in {"errs", "strs"} ->
                       /\ x.t = "arr" /\ Len(x.vs) = Len(o.l)
                       /\ \A i \in 1..Len(o.l) : IF o.l[i] = NilElement THEN x.vs[i].t = "null"
                                                   ELSE x.vs[i].t = "str" /\ x.vs[i].s = o.l[i]
    [] o.t = "func" -> x.t = "str"
    [] o.t = "arr"  -> /\ x.t = "arr" /\ Len(o.vs) = Len(x.vs)
                       /\ \A i \in 1..Len(o.vs) : Denotes(x.vs[i], o.vs[i])
    [] o.t = "map"  -> /\ x.t = "map" /\ o.ks = x.ks /\ Len(o.vs) = Len(x.vs)
                       /\ \A i \in 1..Len(o.vs) : Denotes(x.vs[i], o.vs[i])
    [] OTHER -> FALSE
(* Large results are recorded as events in document order; the tree is    *)
(* built again with the frames of the automaton.                           *)
Event(st, x) ==
  CASE x.e \in {"map", "arr"} -> Open(st, x.e)
    [] x.e = "key"  -> [st EXCEPT !.stk[Len(st.stk)].key = x.s]
    [] x.e = "leaf" -> Put(st, x.v)
    [] x.e = "end"  -> Close(st)
Rebuilt(ev) == FoldLeft(Event, Init0, ev).root
\* what a record holds: a tree, or the events of a map that holds it under ""
Unpacked(x) == IF x.t = "flat" THEN Rebuilt(x.ev).vs[1] ELSE x
=============================================================================
