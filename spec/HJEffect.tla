------------------------------ MODULE HJEffect ------------------------------
(***************************************************************************)
(* What every operation of the API, by name, does to the map, array or     *)
(* value it is called on. Contents are nodes; arguments that are outside    *)
(* the supported types are nodes [t |-> "none"], about which the            *)
(* specification promises nothing but that the call returns.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

IntSuffix == {"Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64"}
ScalarSuffix == IntSuffix \cup {"Float32", "Float64", "String", "Bool"}
ContainerSuffix == {"Map", "Array"}
Both(S) == S \cup {s \o "Value" : s \in S}
Names(p, S) == {p \o s : s \in S}

\* operations that put their last argument in
MapPut == (Names("Set", Both(ScalarSuffix \cup ContainerSuffix \cup {"Time"})) \cup {"SetErrors", "SetFunc", "SetValue", "SetObjectForMap"}) \cap
          (Names("Set", Both(ScalarSuffix \cup ContainerSuffix)) \cup {"SetTime", "SetErrors", "SetFunc", "SetValue", "SetObjectForMap", "SetTimeValue"})
ArrayPut == Names("Append", Both(ScalarSuffix \cup ContainerSuffix)) \cup {"AppendValue", "AppendValueValue"}
ValuePut == Names("Set", Both(ScalarSuffix \cup ContainerSuffix \cup {"Time", "Error", "Errors"})) \cup {"SetObject"}

\* operations that have to exist: a client that was written against the
\* library does not build without them; they also have to work
Getter == Names("Get", Both(ScalarSuffix \cup ContainerSuffix)) \cup {"GetRunes", "GetTime", "GetTimeWithDecimalPlaces", "GetFunc", "GetErrors", "GetType"}
Bulk == Names("GetArrayOf", ScalarSuffix)
Predicate == Names("Is", {"Map", "Array", "String", "EmptyString", "Bool", "BoolTrue", "BoolFalse", "Float", "Float32", "Float64", "Integer"} \cup IntSuffix)
MapHas == (MapPut \ {"SetTimeValue"}) \cup Getter \cup Bulk \cup Predicate
          \cup {"SetNil", "RemoveKey", "GetKeys", "HasKey", "GetValue", "Values", "Clone", "IsNil", "IsNull", "ToJSONString", "GetObjectForMap"}
ArrayHas == ArrayPut \cup Bulk \cup Names("GetArrayOf", {s \o "Value" : s \in ScalarSuffix})
          \cup {"AppendNil", "GetMap", "GetStringValue", "GetArrayValue", "GetValues", "SetValueAtIndex", "RemoveValueAtIndex", "Clone", "Len", "ToJSONString"}
ValueHas == ValuePut \cup Getter \cup Predicate
          \cup {"SetNil", "GetObject", "GetTimeValue", "IsNil", "IsNumber", "IsValueEqualToString", "IsValueEqualToStringValue", "Clone"}
Has(on) == CASE on = "map" -> MapHas [] on = "array" -> ArrayHas [] OTHER -> ValueHas
Makers == {"NewValue", "NewValueValue", "NewArrayOfValues", "NewMapOfValues", "NewMap", "NewMapValue", "NewArray", "NewArrayValue",
           "ConvertInterfaceValueToStringValue", "ConvertInterfaceValueToJSONStringValue"}

Null == [t |-> "null"]
Open == [t |-> "none"]

At(s, x) == LET P == {k \in 1..Len(s) : s[k] = x} IN IF P = {} THEN 0 ELSE CHOOSE k \in P : TRUE
\* maps keep the place of a key that is set again
Put(m, k, v) == LET p == At(m.ks, k)
                IN IF p = 0 THEN [m EXCEPT !.ks = Append(@, k), !.vs = Append(@, v)] ELSE [m EXCEPT !.vs[p] = v]
Drop(m, k) == LET p == At(m.ks, k)
              IN IF p = 0 THEN m ELSE [m EXCEPT !.ks = RemoveAt(@, p), !.vs = RemoveAt(@, p)]
\* index arguments are integers of any size: [n |-> sign, d |-> digits]
Index(x) == IF x.n = 1 \/ Len(x.d) > 6 THEN -1 ELSE FoldLeft(LAMBDA acc, d : 10 * acc + d, 0, x.d)
InRange(x, l) == Index(x) >= 0 /\ Index(x) < Len(l)

\* the content after op; Open when nothing is promised about it
After(on, op, as, before) ==
  LET last == as[Len(as)]
  IN CASE on = "map" /\ op \in MapPut    -> IF last.t = "none" THEN Open ELSE Put(before, as[1].s, last)
       [] on = "map" /\ op = "SetNil"    -> Put(before, as[1].s, Null)
       [] on = "map" /\ op = "RemoveKey" -> Drop(before, as[1].s)
       [] on = "array" /\ op \in ArrayPut -> IF last.t = "none" THEN Open ELSE [before EXCEPT !.vs = Append(@, last)]
       [] on = "array" /\ op = "AppendNil" -> [before EXCEPT !.vs = Append(@, Null)]
       [] on = "array" /\ op = "SetValueAtIndex" -> IF last.t = "none" THEN Open ELSE IF InRange(as[1], before.vs) THEN [before EXCEPT !.vs[Index(as[1]) + 1] = last] ELSE before
       [] on = "array" /\ op = "RemoveValueAtIndex" -> IF InRange(as[1], before.vs) THEN [before EXCEPT !.vs = RemoveAt(@, Index(as[1]) + 1)] ELSE before
       [] on = "value" /\ op \in ValuePut -> last
       [] on = "value" /\ op = "SetNil"   -> Null
       [] OTHER -> before
\* whether it has to report failure: "ret", "err" or "any"
Outcome(on, op, as, before) ==
  CASE on = "array" /\ op \in {"SetValueAtIndex", "RemoveValueAtIndex"} -> IF InRange(as[1], before.vs) THEN "ret" ELSE "err"
    [] op \in MapPut \cup ArrayPut \cup ValuePut \cup {"SetNil", "AppendNil"} -> "ret"
    [] op \in Predicate -> "ret"
    [] OTHER -> "any"
Changes(on, op) == (on = "map" /\ op \in MapPut \cup {"SetNil", "RemoveKey"}) \/ (on = "array" /\ op \in ArrayPut \cup {"AppendNil", "SetValueAtIndex", "RemoveValueAtIndex"})
                   \/ (on = "value" /\ op \in ValuePut \cup {"SetNil"})
=============================================================================
