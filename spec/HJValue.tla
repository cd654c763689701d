------------------------------ MODULE HJValue ------------------------------
(***************************************************************************)
(* What every accessor of a value says about every content.                *)
(*                                                                         *)
(* An accessor is a record [g |-> group, ty |-> type, f |-> "ptr" | "val"]  *)
(* and Want(a, c) is what it has to answer about content c:                *)
(*    "ok"   a result, which then has to satisfy Right(a, c, result)       *)
(*    "nil"  neither a result nor an error                                 *)
(*    "err"  an error and no result                                        *)
(*    "open" nothing is promised                                           *)
(* Predicates and the type name have their own definitions.                *)
(***************************************************************************)
EXTENDS HJNumber

TrueT  == <<116,114,117,101>>
FalseT == <<102,97,108,115,101>>
NullT  == <<110,117,108,108>>
NilT   == <<110,105,108>>
SqlNull == <<78,85,76,76>>
NowT   == <<110,111,119>>
ZeroT  == <<122,101,114,111>>

(* ------------------------- decimal arithmetic -------------------------- *)
Zeros(n) == [k \in 1..n |-> 0]
\* the sum of two digit sequences of equal length
AddEq(a, b) ==
  LET r == FoldLeft(LAMBDA acc, k : LET p == Len(a) + 1 - k
                                        v == a[p] + b[p] + acc.c
                                    IN [c |-> v \div 10, d |-> <<v % 10>> \o acc.d],
                    [c |-> 0, d |-> <<>>], [k \in 1..Len(a) |-> k])
  IN IF r.c = 0 THEN r.d ELSE <<r.c>> \o r.d
PadLeft(a, n) == IF Len(a) >= n THEN a ELSE Zeros(n - Len(a)) \o a
AddInt(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b) IN StripLeft(AddEq(PadLeft(a, n), PadLeft(b, n)))
AddDec(a, b) ==
  IF a.d = <<>> THEN b ELSE IF b.d = <<>> THEN a
  ELSE LET la == a.e - Len(a.d)
           lb == b.e - Len(b.d)
           lo == IF la < lb THEN la ELSE lb
       IN NormDec(AddInt(a.d \o Zeros(la - lo), b.d \o Zeros(lb - lo)), lo)

(* ------------------------------ contents ------------------------------- *)
\* the magnitude of a number
Mag(c) == IF c.t = "int" THEN NormDec(c.d, 0) ELSE [d |-> c.d, e |-> c.e]

(* ------------------------- numbers in strings -------------------------- *)
AllIn(s, S) == \A k \in 1..Len(s) : s[k] \in S
SomeIn(s, S) == \E k \in 1..Len(s) : s[k] \in S
DigitSet == 48..57
\* plain integers: -? digits
IsIntText(s) == LET b == IF s # <<>> /\ Head(s) = MINUS THEN Tail(s) ELSE s IN b # <<>> /\ AllIn(b, DigitSet)
\* spelled in a way the library may or may not read
OpenInt(ty, s) ==
  \/ s # <<>> /\ Head(s) = PLUS /\ Len(s) > 1 /\ AllIn(Tail(s), DigitSet)
  \/ s # <<>> /\ SomeIn(s, {95}) /\ SomeIn(s, DigitSet)
  \/ ty \in UIntTypes /\ s = SqlNull
  \/ ty \in UIntTypes /\ IsIntText(s) /\ Head(s) = MINUS /\ AllIn(Tail(s), {48})

\* -? digits (. digits)? ((e|E) (+|-)? digits)?  and the looser one of Go
NumTextStep(q, c) ==
  CASE q = "^" -> IF c = MINUS THEN "-" ELSE IF IsDigit(c) THEN "i" ELSE "!"
    [] q = "-" -> IF IsDigit(c) THEN "i" ELSE "!"
    [] q = "i" -> IF IsDigit(c) THEN "i" ELSE IF c = DOT THEN "." ELSE IF c \in {69, 101} THEN "e" ELSE "!"
    [] OTHER   -> NumStep(q, c)
IsNumText(s) == FoldLeft(NumTextStep, "^", s) \in {"i", "f", "x"}
LooseStep(q, c) ==
  CASE q = "^" -> IF c \in {MINUS, PLUS} THEN "-" ELSE IF IsDigit(c) THEN "i" ELSE IF c = DOT THEN "." ELSE "!"
    [] q = "-" -> IF IsDigit(c) THEN "i" ELSE IF c = DOT THEN "." ELSE "!"
    [] q = "i" -> IF IsDigit(c) THEN "i" ELSE IF c = DOT THEN "f" ELSE IF c \in {69, 101} THEN "e" ELSE "!"
    [] q = "f" -> IF IsDigit(c) THEN "f" ELSE IF c \in {69, 101} THEN "e" ELSE "!"
    [] OTHER   -> NumStep(q, c)
IsLooseNum(s) == FoldLeft(LooseStep, "^", s) \in {"i", "f", "x"}
Lower(s) == [k \in 1..Len(s) |-> IF s[k] >= 65 /\ s[k] <= 90 THEN s[k] + 32 ELSE s[k]]
Unsign(s) == IF s # <<>> /\ Head(s) \in {MINUS, PLUS} THEN Tail(s) ELSE s
InfNames == {<<105,110,102>>, <<105,110,102,105,110,105,116,121>>, <<110,97,110>>}
OpenFloat(s) ==
  /\ ~IsNumText(s)
  /\ \/ IsLooseNum(s)
     \/ Lower(Unsign(s)) \in InfNames
     \/ SomeIn(s, DigitSet) /\ SomeIn(s, {95, 88, 120, 80, 112})

(* -------------------------------- times -------------------------------- *)
\* dddd-dd-dd dd:dd:dd and then . and digits, or nothing
TimeShape == <<0, 0, 0, 0, 45, 0, 0, 45, 0, 0, 32, 0, 0, 58, 0, 0, 58, 0, 0>>
HasTimeShape(s) ==
  /\ Len(s) >= 19
  /\ \A k \in 1..19 : IF TimeShape[k] = 0 THEN IsDigit(s[k]) ELSE s[k] = TimeShape[k]
  /\ Len(s) > 19 => s[20] = DOT /\ Len(s) > 20 /\ \A k \in 21..Len(s) : IsDigit(s[k])
Num2(s, p) == 10 * (s[p] - 48) + (s[p + 1] - 48)
Num4(s, p) == 100 * Num2(s, p) + Num2(s, p + 2)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RealTime(s) == LET m == Num2(s, 6) d == Num2(s, 9)
               IN m \in 1..12 /\ d >= 1 /\ d <= DaysIn(Num4(s, 1), m) /\ Num2(s, 12) < 24 /\ Num2(s, 15) < 60 /\ Num2(s, 18) < 60
TimePlaces(s) == IF Len(s) = 19 THEN 0 ELSE Len(s) - 20
\* "yes": a time, "no": not a time, "open"
TimeClass(s) ==
  IF HasTimeShape(s)
  THEN IF TimePlaces(s) > 9 \/ Num4(s, 1) = 0 THEN "open" ELSE IF RealTime(s) THEN "yes" ELSE "no"
  ELSE IF s \in {NowT, ZeroT} THEN "open"
  ELSE IF ~SomeIn(s, DigitSet) \/ ~SomeIn(s, {45}) \/ ~SomeIn(s, {58}) THEN "no"
  ELSE "open"
\* the text with nine fractional digits
FullTime(s) == SubSeq(s, 1, 19) \o <<DOT>> \o (IF Len(s) > 20 THEN SubSeq(s, 21, Len(s)) ELSE <<>>) \o [k \in 1..(9 - TimePlaces(s)) |-> 48]

(* --------------------------- text conversion --------------------------- *)
HasText(c) == c.t \in {"null", "bool", "str", "int", "flt", "time", "err"}
IntText(c) == (IF c.n = 1 THEN <<MINUS>> ELSE <<>>) \o (IF c.d = <<>> THEN <<ZERO>> ELSE [k \in 1..Len(c.d) |-> c.d[k] + 48])
TextOK(c, s) ==
  CASE c.t = "null" -> s = NullT
    [] c.t = "bool" -> s = IF c.b = 1 THEN TrueT ELSE FalseT
    [] c.t \in {"str", "err", "time"} -> s = c.s
    [] c.t = "int"  -> s = IntText(c)
    [] c.t = "flt"  -> IsNumber(s) /\ NumDenotes(s, c)
    [] OTHER -> FALSE

(* ------------------------------ accessors ------------------------------ *)
Valued(f) == IF f = "val" THEN "err" ELSE "nil"
BadText(s) == \E k \in 1..Len(s) : s[k] >= BadByte

FloatWant(c) ==
  CASE c.t \in {"int", "flt"} -> "ok"
    [] c.t = "fltx" -> "open"
    [] c.t = "str" -> IF IsNumText(c.s)
                      THEN LET v == LitDec(c.s) IN IF LeqDec(v, MaxFloat64) THEN "ok" ELSE IF LeqDec(TooBig, v) THEN "err" ELSE "open"
                      ELSE IF OpenFloat(c.s) THEN "open" ELSE "err"
    [] OTHER -> "err"
\* the number in a content that is one or spells one
FloatVal(c) == IF c.t = "str" THEN [n |-> LitNeg(c.s), v |-> LitDec(c.s)] ELSE [n |-> c.n, v |-> Mag(c)]
MaxFloat32 == [d |-> <<3,4,0,2,8,2,3,4,6,6>>, e |-> 39]
TooBig32   == [d |-> <<3,5>>, e |-> 39]

Want(a, c) ==
  IF c.t = "null" THEN Valued(a.f)
  ELSE CASE a.g = "int" -> (CASE c.t = "int" -> IF Fits(a.ty, c) THEN "ok" ELSE "err"
                              [] c.t = "str" -> IF OpenInt(a.ty, c.s) THEN "open"
                                                ELSE IF IsIntText(c.s) /\ Fits(a.ty, LitInt(c.s)) THEN "ok" ELSE "err"
                              [] OTHER -> "err")
         [] a.g = "float" -> IF a.ty = "float64" THEN FloatWant(c)
                             ELSE IF FloatWant(c) # "ok" THEN FloatWant(c)
                             ELSE LET v == FloatVal(c).v
                                  IN IF LeqDec(v, MaxFloat32) THEN "ok" ELSE IF LeqDec(TooBig32, v) THEN "err" ELSE "open"
         [] a.g = "bool"  -> IF c.t = "bool" \/ (c.t = "str" /\ c.s \in {TrueT, FalseT, <<48>>, <<49>>}) THEN "ok" ELSE "err"
         [] a.g = "string" -> IF c.t = "str" THEN "ok" ELSE "err"
         [] a.g = "runes" -> IF c.t = "str" THEN (IF BadText(c.s) THEN "open" ELSE "ok") ELSE "err"
         [] a.g = "map"   -> IF c.t = "map" THEN "ok" ELSE "err"
         [] a.g = "array" -> IF c.t = "arr" THEN "ok" ELSE "err"
         [] a.g = "func"  -> IF c.t = "func" THEN "ok" ELSE "err"
         [] a.g = "errors" -> IF c.t = "errs" THEN (IF c.l = <<>> THEN "open" ELSE "ok")
                              \* a list of texts is read as a list of errors: what writing errors gives
                              ELSE IF c.t = "strs" THEN (IF c.l = <<>> THEN "open" ELSE "ok")
                              ELSE IF c.t = "arr" THEN (IF c.vs # <<>> /\ \A k \in 1..Len(c.vs) : c.vs[k].t = "str" THEN "ok" ELSE "open")
                              ELSE IF c.t = "err" THEN "open" ELSE "err"
         [] a.g = "time"  -> (CASE c.t = "time" -> "ok"
                                [] c.t = "str" -> (CASE TimeClass(c.s) = "yes" -> "ok" [] TimeClass(c.s) = "no" -> "err" [] OTHER -> "open")
                                [] OTHER -> "err")
         \* a.p: the number of decimal places
         [] a.g = "timep" -> (CASE c.t = "time" -> IF a.p \in 0..9 THEN "ok" ELSE "open"
                                [] c.t = "str" -> (CASE TimeClass(c.s) = "yes" -> IF a.p = TimePlaces(c.s) THEN "ok"
                                                                                  ELSE IF a.p = 0 THEN "open" ELSE "err"
                                                     [] TimeClass(c.s) = "no" -> "err"
                                                     [] OTHER -> "open")
                                [] OTHER -> "err")

\* how far a 32 bit float may be from the number it was read from: half a
\* unit of the sixth decimal place, and the rounding of a 64 bit float
Slack(v) == AddDec([d |-> <<5>>, e |-> -6], [d |-> <<1>>, e |-> IF v.d = <<>> THEN -15 ELSE v.e - 14])
NearFloat32(v, o) ==
  /\ LeqDec(o.l32, AddDec(v, Slack(v)))
  /\ LeqDec(v, AddDec(o.h32, Slack(v)))

Right(a, c, o) ==
  CASE a.g = "int" -> /\ o.t = "int" /\ o.k = a.ty
                      /\ IF c.t = "int" THEN o.n = c.n /\ o.d = c.d
                         ELSE LET x == LitInt(c.s) IN o.n = x.n /\ o.d = x.d
    [] a.g = "float" -> /\ o.t = "flt" /\ o.k = a.ty
                        /\ LET x == FloatVal(c)
                           IN /\ (x.v.d # <<>> /\ o.d # <<>>) => o.n = x.n
                              /\ IF a.ty = "float64"
                                 THEN CASE c.t = "flt" -> o.d = c.x.d /\ o.e = c.x.e /\ o.z = c.z
                                        [] OTHER -> LeqDec(o.lo, x.v) /\ LeqDec(x.v, o.hi)
                                 ELSE NearFloat32(x.v, o)
    [] a.g = "bool" -> o.t = "bool" /\ o.b = (IF c.t = "bool" THEN c.b ELSE IF c.s \in {TrueT, <<49>>} THEN 1 ELSE 0)
    [] a.g \in {"string", "runes"} -> o.t = "str" /\ o.s = c.s
    [] a.g \in {"map", "array", "func"} -> o = c
    [] a.g = "errors" -> /\ o.t = "errs"
                         /\ o.l = IF c.t = "arr" THEN [k \in 1..Len(c.vs) |-> c.vs[k].s] ELSE c.l
    [] a.g \in {"time", "timep"} -> IF c.t = "time" THEN o.t = "time" /\ o.n = c.n /\ o.d = c.d
                                    ELSE o.t = "time" /\ o.f = FullTime(c.s)

\* what an answer may be: cls "ok" (with o), "nil" or "err"
Answer(a, c, cls, o) ==
  LET w == Want(a, c)
  IN CASE w = "ok"   -> (cls = "ok" /\ Right(a, c, o)) \/ (a.g = "runes" /\ c.s = <<>> /\ cls = "nil")
       [] w = "open" -> cls \in {"ok", "nil", "err"}
       [] OTHER      -> cls = w

(* --------------------- lists of one type, all or nothing --------------- *)
BulkWant(a, c) ==
  IF c.t = "null" THEN Valued(a.f)
  ELSE IF c.t # "arr" THEN "err"
  ELSE LET ws == {Want(a, c.vs[k]) : k \in 1..Len(c.vs)}
       IN IF "err" \in ws THEN "err" ELSE IF "open" \in ws THEN "open" ELSE "ok"
BulkRight(a, c, o) ==
  /\ o.t = "arr" /\ Len(o.vs) = Len(c.vs)
  /\ \A k \in 1..Len(c.vs) : CASE Want(a, c.vs[k]) = "ok"  -> Right(a, c.vs[k], o.vs[k])
                               [] Want(a, c.vs[k]) = "nil" -> o.vs[k].t = "null"
                               [] OTHER -> TRUE
BulkAnswer(a, c, cls, o) ==
  LET w == BulkWant(a, c)
  \* in Go a nil slice is an empty list
  IN CASE w = "ok"   -> (cls = "ok" /\ BulkRight(a, c, o)) \/ (cls = "nil" /\ c.vs = <<>>)
       [] w = "open" -> (cls = "ok" /\ BulkRight(a, c, o)) \/ cls \in {"err", "nil"}
       [] OTHER      -> cls = w

(* ------------------------------ predicates ----------------------------- *)
IsNum(c) == c.t \in {"int", "flt", "fltx"}
IsFlt(c) == c.t \in {"flt", "fltx"}
Holds(p, c) ==
  CASE p = "IsNil"         -> c.t = "null"
    [] p = "IsNull"        -> c.t = "null"
    [] p = "IsMap"         -> c.t = "map"
    [] p = "IsArray"       -> c.t = "arr"
    [] p = "IsString"      -> c.t = "str"
    [] p = "IsEmptyString" -> c.t = "str" /\ c.s = <<>>
    [] p = "IsBool"        -> c.t = "bool"
    [] p = "IsBoolTrue"    -> c.t = "bool" /\ c.b = 1
    [] p = "IsBoolFalse"   -> c.t = "bool" /\ c.b = 0
    [] p = "IsNumber"      -> IsNum(c)
    [] p = "IsFloat"       -> IsFlt(c)
    [] p = "IsFloat32"     -> IsFlt(c) /\ c.k = "float32"
    [] p = "IsFloat64"     -> IsFlt(c) /\ c.k = "float64"
    [] p = "IsInteger"     -> c.t = "int"
    [] p = "IsInt"         -> c.t = "int" /\ c.k \in IntTypes
    [] p = "IsUInt"        -> c.t = "int" /\ c.k \in UIntTypes
    [] p = "IsInt8"        -> c.t = "int" /\ c.k = "int8"
    [] p = "IsInt16"       -> c.t = "int" /\ c.k = "int16"
    [] p = "IsInt32"       -> c.t = "int" /\ c.k = "int32"
    [] p = "IsInt64"       -> c.t = "int" /\ c.k = "int64"
    [] p = "IsUInt8"       -> c.t = "int" /\ c.k = "uint8"
    [] p = "IsUInt16"      -> c.t = "int" /\ c.k = "uint16"
    [] p = "IsUInt32"      -> c.t = "int" /\ c.k = "uint32"
    [] p = "IsUInt64"      -> c.t = "int" /\ c.k = "uint64"
MapPreds == {"IsNull", "IsMap", "IsArray", "IsString", "IsEmptyString", "IsBool", "IsBoolTrue", "IsBoolFalse", "IsFloat", "IsFloat32", "IsFloat64",
             "IsInteger", "IsInt", "IsUInt", "IsInt8", "IsInt16", "IsInt32", "IsInt64", "IsUInt8", "IsUInt16", "IsUInt32", "IsUInt64"}
ValuePreds == (MapPreds \ {"IsNull"}) \cup {"IsNil", "IsNumber"}

\* names of types, as code points, without a star
TypeNames == [ int |-> <<105,110,116>>, int8 |-> <<105,110,116,56>>, int16 |-> <<105,110,116,49,54>>, int32 |-> <<105,110,116,51,50>>, int64 |-> <<105,110,116,54,52>>,
  uint |-> <<117,105,110,116>>, uint8 |-> <<117,105,110,116,56>>, uint16 |-> <<117,105,110,116,49,54>>, uint32 |-> <<117,105,110,116,51,50>>, uint64 |-> <<117,105,110,116,54,52>>,
  float32 |-> <<102,108,111,97,116,51,50>>, float64 |-> <<102,108,111,97,116,54,52>>,
  str |-> <<115,116,114,105,110,103>>, bool |-> <<98,111,111,108>>, map |-> <<106,115,111,110,46,77,97,112>>, arr |-> <<106,115,111,110,46,65,114,114,97,121>>,
  time |-> <<116,105,109,101,46,84,105,109,101>>, errs |-> <<91,93,101,114,114,111,114>>, strs |-> <<91,93,115,116,114,105,110,103>>, null |-> NilT ]
TypeKey(c) == IF c.t \in {"int", "flt", "fltx"} THEN c.k ELSE c.t
\* s is a name of the type of c; whether it is held by pointer is not told
TypeNamed(c, s) ==
  CASE c.t = "null" -> s = NilT
    [] TypeKey(c) \in DOMAIN TypeNames -> s \in {TypeNames[TypeKey(c)], <<42>> \o TypeNames[TypeKey(c)]}
    [] OTHER -> s # NilT
=============================================================================
