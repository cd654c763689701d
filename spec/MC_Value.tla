------------------------------ MODULE MC_Value ------------------------------
(***************************************************************************)
(* A value that is set to every content of a universe around all           *)
(* boundaries, in any order; the laws of the accessor table are invariants. *)
(* It also prints the contents as cases for the conformance suite.          *)
(***************************************************************************)
EXTENDS HJAccess, Json
CONSTANTS Which      \* "int", "text", "time", "rest"

RECURSIVE Inc(_), Dec(_)
Inc(d) == IF d = <<>> THEN <<1>> ELSE IF Last(d) < 9 THEN Append(Front(d), Last(d) + 1) ELSE Append(Inc(Front(d)), 0)
Dec(d) == IF Last(d) > 0 THEN StripLeft(Append(Front(d), Last(d) - 1)) ELSE StripLeft(Append(Dec(Front(d)), 9))
Bounds == {MaxDigits[t] : t \in AllIntTypes} \cup {MinDigits[t] : t \in IntTypes}
Mags   == UNION {{b, Inc(b)} \cup (IF b # <<1>> THEN {Dec(b)} ELSE {}) : b \in Bounds} \cup {<<>>, <<1>>, <<2>>, <<9>>, <<1,0>>, <<1,0,0>>, <<4,2>>}
        \cup {<<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,3>>, <<1,6,7,7,7,2,1,7>>, <<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>}

Ints == {x \in [t : {"int"}, k : AllIntTypes, n : {0, 1}, d : Mags] : (x.d = <<>> => x.n = 0) /\ Fits(x.k, x)}
Str(s) == [t |-> "str", s |-> s]
Lit(neg, d) == (IF neg = 1 THEN <<MINUS>> ELSE <<>>) \o (IF d = <<>> THEN <<ZERO>> ELSE [j \in 1..Len(d) |-> d[j] + 48])
Lits == {Lit(n, m) : n \in {0, 1}, m \in Mags}
Texts == Lits \cup {<<ZERO>> \o l : l \in Lits} \cup {<<MINUS, ZERO>> \o l : l \in {Lit(0, m) : m \in Mags}} \cup {<<PLUS>> \o l : l \in Lits}
         \cup {<<32>> \o l : l \in Lits} \cup {l \o <<32>> : l \in Lits} \cup {l \o <<DOT, ZERO>> : l \in Lits} \cup {l \o <<101, 48>> : l \in Lits}
         \cup {<<MINUS>> \o l : l \in Lits} \cup {l \o <<10>> : l \in Lits}
         \cup {TrueT, FalseT, NullT, NilT, SqlNull, <<>>, <<32>>, <<MINUS>>, <<PLUS>>, <<DOT>>, <<49, 49>>, <<84,114,117,101>>, <<84,82,85,69>>, <<116>>, <<102>>, <<121,101,115>>,
               <<49,32>>, <<32,49>>, <<48,48>>, <<48,49>>, <<60,110,105,108,62>>, <<123,125>>, <<91,93>>, <<110,117,108>>, <<116,114,117,101,32>>,
               <<48,120,49,48>>, <<49,95,48>>, <<49,101,51>>, <<49,46,53>>, <<46,53>>, <<53,46>>, <<45,46,53>>, <<49,46,50,46,51>>, <<49,101>>, <<101,49>>, <<110,97,110>>, <<105,110,102>>,
               <<49,69,43,50>>, <<45,48>>, <<45,48,46,48>>, <<49,44,48,48,48>>, <<1632>>, <<65297>>, <<97>>, <<34,49,34>>}
\* texts of times: dates and clocks, good and bad, with any number of places
Dates == { <<50,48,50,52,45,48,50,45,50,57>>, <<50,48,50,51,45,48,50,45,50,57>>, <<49,57,48,48,45,48,50,45,50,57>>, <<50,48,48,48,45,48,50,45,50,57>>,
           <<50,48,50,52,45,49,51,45,48,49>>, <<50,48,50,52,45,48,48,45,49,48>>, <<50,48,50,52,45,48,52,45,51,49>>, <<50,48,50,52,45,49,50,45,51,49>>,
           <<50,48,50,52,45,48,49,45,48,48>>, <<48,48,48,48,45,48,48,45,48,48>>, <<49,57,54,57,45,49,50,45,51,49>>, <<57,57,57,57,45,49,50,45,51,49>>,
           <<48,48,48,49,45,48,49,45,48,49>>, <<50,50,54,50,45,48,52,45,49,50>>, <<49,54,55,55,45,48,57,45,50,48>> }
Clocks == { <<48,48,58,48,48,58,48,48>>, <<50,51,58,53,57,58,53,57>>, <<50,52,58,48,48,58,48,48>>, <<49,50,58,54,48,58,48,48>>, <<49,50,58,51,48,58,54,48>>, <<48,57,58,48,56,58,48,55>> }
Fracs == {<<>>} \cup {<<DOT>> \o [j \in 1..p |-> 48 + ((j * m) % 10)] : p \in 1..9, m \in {0, 1, 7, 9}}
TimeTexts == {d \o <<32>> \o c \o f : d \in Dates, c \in Clocks, f \in Fracs}
             \cup {NowT \o <<32>>, <<>>, <<50,48,50,52,45,48,50,45,50,57>>, <<49,50,58,48,48,58,48,48>>, NullT, TrueT,
                   <<50,48,50,52,45,48,50,45,50,57,84,48,48,58,48,48,58,48,48,90>>, <<110,111,116,32,97,32,116,105,109,101>>}

Universe == CASE Which = "int" -> Ints
              [] Which = "text" -> {Str(s) : s \in Texts}
              [] Which = "time" -> {Str(s) : s \in TimeTexts}
              [] Which = "rest" -> {[t |-> "null"], [t |-> "bool", b |-> 0], [t |-> "bool", b |-> 1], [t |-> "map", ks |-> <<>>, vs |-> <<>>], [t |-> "arr", vs |-> <<>>],
                                    [t |-> "func"], [t |-> "other", k |-> "x"], [t |-> "errs", l |-> <<<<97>>>>], [t |-> "err", s |-> <<97>>]}
                                   \cup {Str(s) : s \in {<<>>, NullT, NilT, TrueT, <<48>>}} \cup {x \in Ints : x.d = <<>>}

VARIABLES c, done
vars == <<c, done>>
Init == c = [t |-> "null"] /\ done = FALSE
Set(x) == /\ ~done
          /\ c' = x /\ done' = TRUE
          /\ PrintT("CASE " \o ToJson(x))
\* forget what was set: the next content does not depend on it
Next == (\E x \in Universe : Set(x)) \/ (done /\ c' = [t |-> "null"] /\ done' = FALSE)
Spec == Init /\ [][Next]_vars

(* --------------------------------- laws -------------------------------- *)
All == {Accessor(n) : n \in Scalars}
Own(x) == CASE x.t = "int" -> A("int", x.k, "ptr") [] x.t = "str" -> A("string", "", "ptr") [] x.t = "bool" -> A("bool", "", "ptr")
            [] x.t = "map" -> A("map", "", "ptr") [] x.t = "arr" -> A("array", "", "ptr") [] x.t = "func" -> A("func", "", "ptr")
            [] x.t = "errs" -> A("errors", "", "ptr")
\* what is set is read back by its own getter, and by nothing but itself
OwnLaw == c.t \in {"int", "str", "bool", "map", "arr", "func", "errs"} => Want(Own(c), c) = "ok" /\ Right(Own(c), c, c)
\* the two forms of a getter differ for null only
FormLaw == \A a \in All : LET b == [a EXCEPT !.f = "val"] p == [a EXCEPT !.f = "ptr"]
                          IN IF c.t = "null" THEN Want(b, c) = "err" /\ Want(p, c) = "nil" ELSE Want(b, c) = Want(p, c) /\ Want(p, c) # "nil"
\* an integer getter answers exactly what fits, and a wider one answers as well
IntLaw == \A ty \in AllIntTypes :
            LET a == A("int", ty, "ptr")
            IN /\ c.t = "int" => (Want(a, c) = "ok" <=> Fits(ty, c))
               /\ Want(a, c) = "ok" => LET x == IF c.t = "int" THEN c ELSE LitInt(c.s)
                                           o == [t |-> "int", k |-> ty, n |-> x.n, d |-> x.d]
                                       IN /\ Fits(ty, x) /\ Right(a, c, o)
                                          \* and nothing next to it
                                          /\ ~Right(a, c, [o EXCEPT !.d = Inc(@)])
                                          /\ \A t2 \in AllIntTypes : Fits(t2, x) => Want(A("int", t2, "ptr"), c) \in {"ok", "open"}
               /\ Want(a, c) # "ok" => c.t # "int" \/ ~Fits(ty, c)
\* exactly one kind, its groups, and no other
KindLaw ==
  LET kinds == {"IsNil", "IsMap", "IsArray", "IsString", "IsBool", "IsInteger", "IsFloat"}
      sized == {"IsInt8", "IsInt16", "IsInt32", "IsInt64"}
      usized == {"IsUInt8", "IsUInt16", "IsUInt32", "IsUInt64"}
      T(S) == {p \in S : Holds(p, c)}
  IN /\ Cardinality(T(kinds)) <= 1
     /\ c.t \in {"null", "map", "arr", "str", "bool", "int"} => Cardinality(T(kinds)) = 1
     /\ Holds("IsNumber", c) <=> Holds("IsInteger", c) \/ Holds("IsFloat", c)
     /\ Holds("IsInteger", c) <=> Holds("IsInt", c) \/ Holds("IsUInt", c)
     /\ ~(Holds("IsInt", c) /\ Holds("IsUInt", c))
     /\ Cardinality(T(sized \cup usized)) <= 1
     /\ T(sized) # {} => Holds("IsInt", c)
     /\ T(usized) # {} => Holds("IsUInt", c)
     /\ Holds("IsBool", c) <=> Holds("IsBoolTrue", c) \/ Holds("IsBoolFalse", c)
     /\ ~(Holds("IsBoolTrue", c) /\ Holds("IsBoolFalse", c))
     /\ Holds("IsEmptyString", c) => Holds("IsString", c)
     /\ Holds("IsNil", c) => T(ValuePreds \cup MapPreds) = {"IsNil", "IsNull"}
\* at most one of the text, the number and the boolean reading is of another kind than the content
NullLaw == c.t # "null" => \A a \in All : Want(a, c) # "nil"
\* the text of an integer is read back as that integer
TextLaw == c.t = "int" => /\ TextOK(c, IntText(c)) /\ IsIntText(IntText(c)) /\ LitInt(IntText(c)) = [n |-> c.n, d |-> c.d]
                          /\ ~TextOK(c, IntText([c EXCEPT !.d = Inc(@)]))
                          /\ Want(A("int", c.k, "ptr"), Str(IntText(c))) \in {"ok"}
\* a list of one element is read exactly as the element
BulkLaw == \A n \in DOMAIN BulkName :
             LET a == BulkName[n] w == Want(a, c) b == BulkWant(a, [t |-> "arr", vs |-> <<c>>])
             IN CASE w = "nil" -> b = "ok" [] OTHER -> b = w
TimeLaw == (c.t = "str" /\ TimeClass(c.s) = "yes") =>
             /\ Len(FullTime(c.s)) = 29 /\ TimeClass(FullTime(c.s)) = "yes" /\ IsPrefix(c.s, FullTime(c.s))
             /\ Cardinality({p \in 1..9 : Want([A("timep", "", "ptr") EXCEPT !.p = p], c) = "ok"}) <= 1
             /\ Want(A("time", "", "ptr"), c) = "ok"
\* the calendar and the arithmetic on digits
ASSUME \A y \in {1900, 2000, 2023, 2024, 2100} :
         FoldLeft(LAMBDA s, m : s + DaysIn(y, m), 0, [m \in 1..12 |-> m]) = (IF Leap(y) THEN 366 ELSE 365)
Small == 0..60
ToD(n) == IF n = 0 THEN <<>> ELSE IF n < 10 THEN <<n>> ELSE <<n \div 10, n % 10>>
ASSUME \A x \in Small, y \in Small : x + y <= 99 => AddInt(ToD(x), ToD(y)) = ToD(x + y)
ASSUME \A x \in Small, y \in {0, 3, 10, 59} : \A e \in {-2, 0, 1} :
         LET p == NormDec(ToD(x), e) q == NormDec(ToD(y), e) IN AddDec(p, q) = NormDec(AddInt(ToD(x), ToD(y)), e) /\ AddDec(p, q) = AddDec(q, p)
=============================================================================
