------------------------------- MODULE HJBase -------------------------------
(***************************************************************************)
(* Characters, decimal numbers and content nodes: the vocabulary shared by *)
(* all modules.                                                            *)
(*                                                                         *)
(* A text is a sequence of code points.  A byte that is not part of valid  *)
(* UTF-8 is represented as BadByte + byte.                                 *)
(*                                                                         *)
(* Numbers are never TLC integers (those have 32 bits): an integer is a    *)
(* sign and its decimal digits, a decimal is sign, digits and exponent.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

BadByte == 1114112          \* 0x110000, one past the last code point

(* ------------------------------ characters ----------------------------- *)
Q      == 34    \* "
BSL    == 92    \* \
SLASH  == 47
LBR    == 123   \* {
RBR    == 125   \* }
LSQ    == 91    \* [
RSQ    == 93    \* ]
COMMA  == 44
COLON  == 58
MINUS  == 45
PLUS   == 43
DOT    == 46
ZERO   == 48
NINE   == 57

IsWs(c)      == c \in {32, 9, 10, 13}
IsDigit(c)   == c >= 48 /\ c <= 57
IsHex(c)     == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c)    == IF IsDigit(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsHighSur(u) == u >= 55296 /\ u <= 56319
IsLowSur(u)  == u >= 56320 /\ u <= 57343
IsSur(u)     == u >= 55296 /\ u <= 57343
Combine(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)

(* ----------------------- digit sequences (0..9) ------------------------ *)
RECURSIVE StripLeft(_)
StripLeft(d) == IF d = <<>> THEN d
                ELSE IF Head(d) # 0 THEN d
                ELSE LET nz == {i \in 1..Len(d) : d[i] # 0}
                     IN IF nz = {} THEN <<>>
                        ELSE SubSeq(d, CHOOSE i \in nz : \A j \in nz : i <= j, Len(d))
StripRight(d) == LET nz == {i \in 1..Len(d) : d[i] # 0}
                 IN IF nz = {} THEN <<>>
                    ELSE SubSeq(d, 1, CHOOSE i \in nz : \A j \in nz : i >= j)

\* -1, 0, 1: comparison of two digit sequences without leading zeros
CmpInt(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET df == {i \in 1..Len(a) : a[i] # b[i]}
       IN IF df = {} THEN 0
          ELSE LET i == CHOOSE i \in df : \A j \in df : i <= j
               IN IF a[i] < b[i] THEN -1 ELSE 1

LeqInt(a, b) == CmpInt(a, b) <= 0

(* A non-negative decimal: [d |-> digits, e |-> exponent] is the number     *)
(* 0.d1d2d3... * 10^e with d1 # 0 and the last digit # 0; zero has d = <<>> *)
NormDec(d, e) ==      \* the number d1d2...dn * 10^e, any zeros
  LET r  == StripRight(d)
      e1 == e + (Len(d) - Len(r))
      l  == StripLeft(r)
  IN IF l = <<>> THEN [d |-> <<>>, e |-> 0]
     ELSE [d |-> l, e |-> e1 + Len(l)]

CmpDec(a, b) ==
  IF a.d = <<>> /\ b.d = <<>> THEN 0
  ELSE IF a.d = <<>> THEN -1
  ELSE IF b.d = <<>> THEN 1
  ELSE IF a.e # b.e THEN (IF a.e < b.e THEN -1 ELSE 1)
  ELSE LET n  == IF Len(a.d) < Len(b.d) THEN Len(a.d) ELSE Len(b.d)
           df == {i \in 1..n : a.d[i] # b.d[i]}
       IN IF df # {} THEN LET i == CHOOSE i \in df : \A j \in df : i <= j
                          IN IF a.d[i] < b.d[i] THEN -1 ELSE 1
          ELSE IF Len(a.d) = Len(b.d) THEN 0
          ELSE IF Len(a.d) < Len(b.d) THEN -1 ELSE 1
LeqDec(a, b) == CmpDec(a, b) <= 0

(* ----------------------------- integer types --------------------------- *)
IntTypes   == {"int8", "int16", "int32", "int64", "int"}
UIntTypes  == {"uint8", "uint16", "uint32", "uint64", "uint"}
AllIntTypes == IntTypes \cup UIntTypes

\* largest magnitude of the non-negative and of the negative numbers
MaxDigits == [
  int8   |-> <<1,2,7>>,
  int16  |-> <<3,2,7,6,7>>,
  int32  |-> <<2,1,4,7,4,8,3,6,4,7>>,
  int64  |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>,
  int    |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>,
  uint8  |-> <<2,5,5>>,
  uint16 |-> <<6,5,5,3,5>>,
  uint32 |-> <<4,2,9,4,9,6,7,2,9,5>>,
  uint64 |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>,
  uint   |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>> ]
MinDigits == [
  int8   |-> <<1,2,8>>,
  int16  |-> <<3,2,7,6,8>>,
  int32  |-> <<2,1,4,7,4,8,3,6,4,8>>,
  int64  |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>,
  int    |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>,
  uint8  |-> <<>>, uint16 |-> <<>>, uint32 |-> <<>>, uint64 |-> <<>>, uint |-> <<>> ]

\* an integer: neg \in {0,1}, dg digits without leading zeros (zero: <<>>, neg 0)
NormInt(neg, digits) == LET d == StripLeft(digits)
                        IN [n |-> IF d = <<>> THEN 0 ELSE neg, d |-> d]
Fits(ty, x) == IF x.n = 1 THEN LeqInt(x.d, MinDigits[ty]) ELSE LeqInt(x.d, MaxDigits[ty])

Narrowest(neg, x) ==
  IF neg = 1
  THEN IF Fits("int8", x) THEN "int8" ELSE IF Fits("int16", x) THEN "int16"
       ELSE IF Fits("int32", x) THEN "int32" ELSE IF Fits("int64", x) THEN "int64" ELSE "none"
  ELSE IF Fits("uint8", x) THEN "uint8" ELSE IF Fits("uint16", x) THEN "uint16"
       ELSE IF Fits("uint32", x) THEN "uint32" ELSE IF Fits("uint64", x) THEN "uint64" ELSE "none"

(***************************************************************************)
(* Content nodes, as projected from the implementation:                    *)
(*  [t |-> "null"]                                                         *)
(*  [t |-> "bool", b |-> 0 or 1]                                           *)
(*  [t |-> "str",  s |-> text]                                             *)
(*  [t |-> "int",  k |-> type, n |-> sign, d |-> digits]                   *)
(*  [t |-> "flt",  k |-> "float32" or "float64", n, d, e |-> shortest      *)
(*        decimal, lo, hi |-> the decimals that round to it, z |-> 1 for   *)
(*        a zero with a sign]                                              *)
(*  [t |-> "map",  ks |-> keys, vs |-> nodes]                              *)
(*  [t |-> "arr",  vs |-> nodes]                                           *)
(*  [t |-> "time", s |-> text, ...]  [t |-> "err", s |-> text]             *)
(*  [t |-> "errs", l |-> texts]      [t |-> "func"]  [t |-> "other", k]    *)
(*  [t |-> "strs", l |-> texts]  a list of strings                         *)
(***************************************************************************)
\* the element of a list of errors that is nil
NilElement == <<-1>>
RECURSIVE NodeSize(_)
NodeSize(x) == IF x.t \in {"map", "arr"}
               THEN 1 + FoldLeft(LAMBDA a, y : a + NodeSize(y), 0, x.vs) ELSE 1
RECURSIVE NodeDepth(_)
NodeDepth(x) == IF x.t \in {"map", "arr"}
                THEN 1 + FoldLeft(LAMBDA a, y : LET k == NodeDepth(y) IN IF k > a THEN k ELSE a, 0, x.vs)
                ELSE 0
=============================================================================
