------------------------------ MODULE HJWrite -------------------------------
(***************************************************************************)
(* Serialising: a reference serialiser for the document nodes of HJText,   *)
(* and what a written text must satisfy for a stored document.             *)
(***************************************************************************)
EXTENDS HJText

(* -------------------------- the reference ------------------------------ *)
HexDigit(n) == IF n < 10 THEN n + 48 ELSE n + 87
EscapeChar(c) ==
  CASE c = Q   -> <<BSL, Q>>
    [] c = BSL -> <<BSL, BSL>>
    [] c < 32  -> <<BSL, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
    [] OTHER   -> <<c>>
Flatten(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
WriteStr(s) == <<Q>> \o Flatten([i \in 1..Len(s) |-> EscapeChar(s[i])]) \o <<Q>>
Sep(ss) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o <<COMMA>> \o x, <<>>, ss)
RECURSIVE Write(_)
Write(x) ==
  CASE x.t = "null" -> NullL
    [] x.t = "bool" -> IF x.b = 1 THEN TrueL ELSE FalseL
    [] x.t = "num"  -> x.l
    [] x.t = "str"  -> WriteStr(x.s)
    [] x.t = "arr"  -> <<LSQ>> \o Sep([i \in 1..Len(x.vs) |-> Write(x.vs[i])]) \o <<RSQ>>
    [] x.t = "map"  -> <<LBR>> \o Sep([i \in 1..Len(x.vs) |-> WriteStr(x.ks[i]) \o <<COLON>> \o Write(x.vs[i])]) \o <<RBR>>

(* ---------------------- judging a written text ------------------------- *)
\* a lone value is judged as the value of a key
Wrap(t) == <<LBR, Q, Q, COLON>> \o t \o <<RBR>>

\* content that has a JSON form; functions are written as some string, what
\* has no JSON form must be reported
RECURSIVE HasJSON(_)
HasJSON(o) == CASE o.t \in {"null", "bool", "str", "int", "flt", "time", "err", "errs", "strs"} -> TRUE
                [] o.t \in {"map", "arr"} -> \A i \in 1..Len(o.vs) : HasJSON(o.vs[i])
                [] OTHER -> FALSE
RECURSIVE NoJSON(_)       \* must be reported
NoJSON(o) == CASE o.t = "fltx" -> TRUE
               [] o.t \in {"map", "arr"} -> \E i \in 1..Len(o.vs) : NoJSON(o.vs[i])
               [] OTHER -> FALSE
\* JSON content in the narrow sense: what Parse can produce
RECURSIVE IsJSON(_)
IsJSON(o) == CASE o.t \in {"null", "bool", "str", "int", "flt"} -> TRUE
               [] o.t \in {"map", "arr"} -> \A i \in 1..Len(o.vs) : IsJSON(o.vs[i])
               [] OTHER -> FALSE
RECURSIVE HasBad(_)       \* bytes that are not UTF-8
BadIn(s) == \E i \in 1..Len(s) : s[i] >= BadByte
HasBad(o) == CASE o.t \in {"str", "err"} -> BadIn(o.s)
               [] o.t \in {"errs", "strs"} -> \E i \in 1..Len(o.l) : BadIn(o.l[i])
               [] o.t = "arr"  -> \E i \in 1..Len(o.vs) : HasBad(o.vs[i])
               [] o.t = "map"  -> \E i \in 1..Len(o.vs) : HasBad(o.vs[i]) \/ BadIn(o.ks[i])
               [] OTHER -> FALSE

Writes(o, out) ==       \* out is one well-formed JSON value that denotes o
  LET st == Run(Wrap(out))
      v  == Verdict(st)
  IN /\ v = "accept" \/ (v = "may" /\ HasBad(o))
     /\ Len(st.root.ks) = 1
     /\ Denotes(st.root.vs[1], o)

RECURSIVE Same(_, _)    \* equal content, before writing and after parsing
Same(o, p) ==
  CASE o.t \in {"int", "flt"} -> SameNum(o, p)
    [] o.t = "null" -> p.t = "null"
    [] o.t = "bool" -> p.t = "bool" /\ p.b = o.b
    [] o.t = "str"  -> p.t = "str" /\ p.s = o.s
    [] o.t \in {"err", "time"} -> p.t = "str" /\ p.s = o.s
    [] o.t \in {"errs", "strs"} -> p.t = "arr" /\ Len(p.vs) = Len(o.l) /\ \A i \in 1..Len(o.l) : IF o.l[i] = NilElement THEN p.vs[i].t = "null"
                                                                                           ELSE p.vs[i].t = "str" /\ p.vs[i].s = o.l[i]
    [] o.t = "arr"  -> p.t = "arr" /\ Len(p.vs) = Len(o.vs) /\ \A i \in 1..Len(o.vs) : Same(o.vs[i], p.vs[i])
    [] o.t = "map"  -> p.t = "map" /\ p.ks = o.ks /\ Len(p.vs) = Len(o.vs) /\ \A i \in 1..Len(o.vs) : Same(o.vs[i], p.vs[i])
    [] OTHER -> FALSE
=============================================================================
