------------------------------ MODULE HJAccess ------------------------------
(***************************************************************************)
(* The accessors of the API by name, and which property speaks of each.    *)
(***************************************************************************)
EXTENDS HJValue

A(g, ty, f) == [g |-> g, ty |-> ty, f |-> f, p |-> 0]
IntName == [ GetInt |-> "int", GetInt8 |-> "int8", GetInt16 |-> "int16", GetInt32 |-> "int32", GetInt64 |-> "int64",
             GetUInt |-> "uint", GetUInt8 |-> "uint8", GetUInt16 |-> "uint16", GetUInt32 |-> "uint32", GetUInt64 |-> "uint64" ]
IntNameV == [ GetIntValue |-> "int", GetInt8Value |-> "int8", GetInt16Value |-> "int16", GetInt32Value |-> "int32", GetInt64Value |-> "int64",
              GetUIntValue |-> "uint", GetUInt8Value |-> "uint8", GetUInt16Value |-> "uint16", GetUInt32Value |-> "uint32", GetUInt64Value |-> "uint64" ]
OtherName == [ GetFloat32 |-> A("float", "float32", "ptr"), GetFloat32Value |-> A("float", "float32", "val"),
               GetFloat64 |-> A("float", "float64", "ptr"), GetFloat64Value |-> A("float", "float64", "val"),
               GetBool |-> A("bool", "", "ptr"), GetBoolValue |-> A("bool", "", "val"),
               GetString |-> A("string", "", "ptr"), GetStringValue |-> A("string", "", "val"),
               GetRunes |-> A("runes", "", "ptr"),
               GetMap |-> A("map", "", "ptr"), GetMapValue |-> A("map", "", "val"),
               GetArray |-> A("array", "", "ptr"), GetArrayValue |-> A("array", "", "val"),
               GetFunc |-> A("func", "", "ptr"), GetErrors |-> A("errors", "", "ptr"),
               GetTime |-> A("time", "", "ptr"), GetTimeValue |-> A("time", "", "val") ]
PlaceName == [ n \in {"GetTimeWithDecimalPlaces/-1", "GetTimeWithDecimalPlaces/0", "GetTimeWithDecimalPlaces/1", "GetTimeWithDecimalPlaces/2",
                      "GetTimeWithDecimalPlaces/3", "GetTimeWithDecimalPlaces/4", "GetTimeWithDecimalPlaces/5", "GetTimeWithDecimalPlaces/6",
                      "GetTimeWithDecimalPlaces/7", "GetTimeWithDecimalPlaces/8", "GetTimeWithDecimalPlaces/9", "GetTimeWithDecimalPlaces/10"} |->
               CASE n = "GetTimeWithDecimalPlaces/-1" -> -1 [] n = "GetTimeWithDecimalPlaces/0" -> 0 [] n = "GetTimeWithDecimalPlaces/1" -> 1
                 [] n = "GetTimeWithDecimalPlaces/2" -> 2 [] n = "GetTimeWithDecimalPlaces/3" -> 3 [] n = "GetTimeWithDecimalPlaces/4" -> 4
                 [] n = "GetTimeWithDecimalPlaces/5" -> 5 [] n = "GetTimeWithDecimalPlaces/6" -> 6 [] n = "GetTimeWithDecimalPlaces/7" -> 7
                 [] n = "GetTimeWithDecimalPlaces/8" -> 8 [] n = "GetTimeWithDecimalPlaces/9" -> 9 [] OTHER -> 10 ]
BulkName == [ GetArrayOfInt |-> A("int", "int", "ptr"), GetArrayOfInt8 |-> A("int", "int8", "ptr"), GetArrayOfInt16 |-> A("int", "int16", "ptr"),
              GetArrayOfInt32 |-> A("int", "int32", "ptr"), GetArrayOfInt64 |-> A("int", "int64", "ptr"),
              GetArrayOfUInt |-> A("int", "uint", "ptr"), GetArrayOfUInt8 |-> A("int", "uint8", "ptr"), GetArrayOfUInt16 |-> A("int", "uint16", "ptr"),
              GetArrayOfUInt32 |-> A("int", "uint32", "ptr"), GetArrayOfUInt64 |-> A("int", "uint64", "ptr"),
              GetArrayOfIntValue |-> A("int", "int", "val"), GetArrayOfInt8Value |-> A("int", "int8", "val"), GetArrayOfInt16Value |-> A("int", "int16", "val"),
              GetArrayOfInt32Value |-> A("int", "int32", "val"), GetArrayOfInt64Value |-> A("int", "int64", "val"),
              GetArrayOfUIntValue |-> A("int", "uint", "val"), GetArrayOfUInt8Value |-> A("int", "uint8", "val"), GetArrayOfUInt16Value |-> A("int", "uint16", "val"),
              GetArrayOfUInt32Value |-> A("int", "uint32", "val"), GetArrayOfUInt64Value |-> A("int", "uint64", "val"),
              GetArrayOfFloat32 |-> A("float", "float32", "ptr"), GetArrayOfFloat32Value |-> A("float", "float32", "val"),
              GetArrayOfFloat64 |-> A("float", "float64", "ptr"), GetArrayOfFloat64Value |-> A("float", "float64", "val"),
              GetArrayOfBool |-> A("bool", "", "ptr"), GetArrayOfBoolValue |-> A("bool", "", "val"),
              GetArrayOfString |-> A("string", "", "ptr"), GetArrayOfStringValue |-> A("string", "", "val") ]
Scalars == DOMAIN IntName \cup DOMAIN IntNameV \cup DOMAIN OtherName \cup DOMAIN PlaceName
Accessor(n) == IF n \in DOMAIN IntName THEN A("int", IntName[n], "ptr")
               ELSE IF n \in DOMAIN IntNameV THEN A("int", IntNameV[n], "val")
               ELSE IF n \in DOMAIN OtherName THEN OtherName[n]
               ELSE [A("timep", "", "ptr") EXCEPT !.p = PlaceName[n]]

\* the accessors a value, a map and an array have to have
ValueHas == DOMAIN IntName \cup DOMAIN IntNameV \cup DOMAIN OtherName \cup DOMAIN PlaceName \cup ValuePreds \cup {"GetType", "GetObject"}
MapHas == (DOMAIN IntName \cup DOMAIN IntNameV \cup DOMAIN OtherName \cup DOMAIN PlaceName \cup MapPreds \cup {"GetType", "GetObjectForMap", "GetValue", "HasKey"}
           \cup {"GetArrayOfInt", "GetArrayOfInt8", "GetArrayOfInt16", "GetArrayOfInt32", "GetArrayOfInt64", "GetArrayOfUInt", "GetArrayOfUInt8", "GetArrayOfUInt16",
                 "GetArrayOfUInt32", "GetArrayOfUInt64", "GetArrayOfFloat32", "GetArrayOfFloat32Value", "GetArrayOfFloat64", "GetArrayOfFloat64Value",
                 "GetArrayOfBool", "GetArrayOfBoolValue", "GetArrayOfString"}) \ {"GetTimeValue"}
ArrayHas == DOMAIN BulkName

(* which property an accessor and a content belong to *)
Owner(a, c) ==
  IF c.t = "null" THEN {"C15"}
  ELSE CASE a.g = "int" -> {"C13"} \cup (IF c.t = "int" /\ c.k # a.ty THEN {} ELSE {"C14"})
         [] a.g \in {"time", "timep"} -> {"C20"} \cup (IF c.t = "str" THEN {} ELSE {"C14"})
         [] OTHER -> {"C14"}
BulkOwner(c) == IF c.t = "null" THEN {"C15", "C17"} ELSE {"C17"}
PredOwner(p, c) == {"C16"} \cup (IF c.t = "null" \/ p \in {"IsNil", "IsNull"} THEN {"C15"} ELSE {})
=============================================================================
