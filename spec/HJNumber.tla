------------------------------ MODULE HJNumber ------------------------------
(***************************************************************************)
(* Number literals: the automaton that recognises them, what they denote,  *)
(* and which stored numbers are faithful to them.                          *)
(***************************************************************************)
EXTENDS HJBase

(* The automaton: state x character -> state.                              *)
(*  "^" nothing read   "-" sign   "0" a leading zero   "i" integer digits  *)
(*  "." point   "f" fraction digits   "e" exponent mark   "s" its sign     *)
(*  "x" exponent digits   "!" not a number                                 *)
NumStep(a, c) ==
  CASE a = "^" -> IF c = MINUS THEN "-" ELSE IF c = ZERO THEN "0" ELSE IF IsDigit(c) THEN "i" ELSE "!"
    [] a = "-" -> IF c = ZERO THEN "0" ELSE IF IsDigit(c) THEN "i" ELSE "!"
    [] a = "0" -> IF c = DOT THEN "." ELSE IF c \in {69, 101} THEN "e" ELSE "!"
    [] a = "i" -> IF IsDigit(c) THEN "i" ELSE IF c = DOT THEN "." ELSE IF c \in {69, 101} THEN "e" ELSE "!"
    [] a = "." -> IF IsDigit(c) THEN "f" ELSE "!"
    [] a = "f" -> IF IsDigit(c) THEN "f" ELSE IF c \in {69, 101} THEN "e" ELSE "!"
    [] a = "e" -> IF c \in {PLUS, MINUS} THEN "s" ELSE IF IsDigit(c) THEN "x" ELSE "!"
    [] a = "s" -> IF IsDigit(c) THEN "x" ELSE "!"
    [] a = "x" -> IF IsDigit(c) THEN "x" ELSE "!"
    [] OTHER   -> "!"
NumFinal == {"0", "i", "f", "x"}

IsNumber(l) == FoldLeft(NumStep, "^", l) \in NumFinal

(* ------------------------- what a literal denotes ---------------------- *)
Digits(l) == [i \in 1..Len(l) |-> l[i] - 48]
IndexIn(l, S) == LET js == {i \in 1..Len(l) : l[i] \in S}
                 IN IF js = {} THEN 0 ELSE CHOOSE i \in js : \A j \in js : i <= j
IsIntegerLit(l) == IndexIn(l, {DOT, 69, 101}) = 0
LitNeg(l) == IF Head(l) = MINUS THEN 1 ELSE 0
LitBody(l) == IF Head(l) = MINUS THEN Tail(l) ELSE l

LitInt(l) == NormInt(LitNeg(l), Digits(LitBody(l)))

\* the value of a short digit sequence; anything above 6 digits is 999999
RECURSIVE SmallVal(_)
SmallVal(d) == IF d = <<>> THEN 0 ELSE 10 * SmallVal(Front(d)) + Last(d)
CapVal(d) == LET s == StripLeft(d) IN IF Len(s) > 6 THEN 999999 ELSE SmallVal(s)

LitDec(l) ==          \* magnitude of a decimal literal
  LET b  == LitBody(l)
      ie == IndexIn(b, {69, 101})
      mant == IF ie = 0 THEN b ELSE SubSeq(b, 1, ie - 1)
      ex == IF ie = 0 THEN <<>> ELSE SubSeq(b, ie + 1, Len(b))
      exneg == ex # <<>> /\ Head(ex) = MINUS
      exd == IF ex # <<>> /\ Head(ex) \in {PLUS, MINUS} THEN Tail(ex) ELSE ex
      exv == IF ex = <<>> THEN 0 ELSE CapVal(Digits(exd))
      ip == IndexIn(mant, {DOT})
      int == IF ip = 0 THEN mant ELSE SubSeq(mant, 1, ip - 1)
      fra == IF ip = 0 THEN <<>> ELSE SubSeq(mant, ip + 1, Len(mant))
  IN NormDec(Digits(int \o fra), (IF exneg THEN -exv ELSE exv) - Len(fra))

(* ---------------------------- representability ------------------------- *)
MaxFloat64 == [d |-> <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,7>>, e |-> 309]
TooBig     == [d |-> <<1,8>>, e |-> 309]
\* "ok": must be accepted, "no": must be rejected, "band": between the
\* largest float and the first number that cannot round to it
NumClass(l) ==
  IF IsIntegerLit(l) THEN (IF Narrowest(LitNeg(l), LitInt(l)) = "none" THEN "no" ELSE "ok")
  ELSE LET v == LitDec(l)
       IN IF LeqDec(v, MaxFloat64) THEN "ok" ELSE IF LeqDec(TooBig, v) THEN "no" ELSE "band"

(* ---- a stored number is faithful to a literal ---- *)
IntFaithful(l, o) ==
  /\ o.t = "int"
  /\ LET x == LitInt(l) IN o.k = Narrowest(LitNeg(l), x) /\ o.n = x.n /\ o.d = x.d

\* at most 6 significant digits and inside the normal range of a 32 bit float
FitsFloat32(v) == v.d = <<>> \/ (Len(v.d) <= 6 /\ v.e >= -36 /\ v.e <= 38)

\* o.lo .. o.hi are the magnitudes whose nearest 64 bit float is the one
\* nearest to the shortest decimal of o
DecFaithful(l, o) ==
  /\ o.t = "flt"
  /\ LET v == LitDec(l)
     IN /\ LeqDec(o.lo, v) /\ LeqDec(v, o.hi)
        /\ (v.d # <<>> /\ o.d # <<>>) => o.n = LitNeg(l)
        /\ FitsFloat32(v) => o.k = "float32"
NumFaithful(l, o) == IF IsIntegerLit(l) THEN IntFaithful(l, o) ELSE DecFaithful(l, o)

(* ---- a written literal denotes exactly a stored number ---- *)
\* a 32 bit float is written as any decimal that identifies it as one
Within(o, v) == \/ LeqDec(o.lo, v) /\ LeqDec(v, o.hi)
                \/ LeqDec(o.l32, v) /\ LeqDec(v, o.h32)
NumDenotes(l, o) ==
  CASE o.t = "int" -> IsIntegerLit(l) /\ LitInt(l) = [n |-> o.n, d |-> o.d]
    [] o.t = "flt" -> /\ (o.d # <<>>) => (LitNeg(l) = o.n)
                      /\ Within(o, LitDec(l))
                      /\ ~IsIntegerLit(l)
    [] OTHER -> FALSE

(* ---- a number that was written and parsed is the same number ---- *)
SameNum(o, p) ==
  CASE o.t = "int" -> p.t = "int" /\ p.n = o.n /\ p.d = o.d
    [] o.t = "flt" -> /\ p.t = "flt"
                      /\ (o.d # <<>>) => (p.n = o.n)
                      /\ IF o.k = "float64" THEN p.d = o.d /\ p.e = o.e
                         ELSE Within(o, [d |-> p.d, e |-> p.e])
    [] OTHER -> FALSE
=============================================================================
