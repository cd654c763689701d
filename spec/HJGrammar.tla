----------------------------- MODULE HJGrammar ------------------------------
(***************************************************************************)
(* The JSON grammar (RFC 8259), written down nonterminal by nonterminal    *)
(* and independently of the automaton in HJText: X(t, i) is the set of all *)
(* positions j such that t[i .. j-1] is derived from X.  Only used to      *)
(* check the automaton (MC_Text).                                          *)
(***************************************************************************)
EXTENDS HJBase

At(t, i, S) == i <= Len(t) /\ t[i] \in S
Ch(t, i, c) == IF At(t, i, {c}) THEN {i + 1} ELSE {}
\* sequence of two nonterminals
Then(P, F(_)) == UNION {F(j) : j \in P}

WsChars == {32, 9, 10, 13}
RECURSIVE GWs(_, _)
GWs(t, i) == {i} \cup (IF At(t, i, WsChars) THEN GWs(t, i + 1) ELSE {})

Word(t, i, w) == IF i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w THEN {i + Len(w)} ELSE {}

Dig == 48..57
RECURSIVE GDigits(_, _)      \* one or more
GDigits(t, i) == IF At(t, i, Dig) THEN {i + 1} \cup GDigits(t, i + 1) ELSE {}
GInt(t, i)  == (IF At(t, i, {48}) THEN {i + 1} ELSE {})
               \cup (IF At(t, i, 49..57) THEN {i + 1} \cup GDigits(t, i + 1) ELSE {})
GFrac(t, i) == {i} \cup (IF At(t, i, {46}) THEN GDigits(t, i + 1) ELSE {})
GExp(t, i)  == {i} \cup (IF At(t, i, {69, 101})
                         THEN GDigits(t, i + 1) \cup (IF At(t, i + 1, {43, 45}) THEN GDigits(t, i + 2) ELSE {})
                         ELSE {})
GNumber(t, i) ==
  LET G1(j) == GInt(t, j)
      G2(j) == GFrac(t, j)
      G3(j) == GExp(t, j)
  IN Then(Then(Then({i} \cup Ch(t, i, 45), G1), G2), G3)

Hex == (48..57) \cup (65..70) \cup (97..102)
RECURSIVE GChars(_, _)       \* zero or more characters of a string
GChars(t, i) ==
  {i} \cup
  (IF ~(i <= Len(t)) THEN {}
   ELSE IF t[i] = 92
        THEN IF At(t, i + 1, {34, 92, 47, 98, 102, 110, 114, 116}) THEN GChars(t, i + 2)
             ELSE IF At(t, i + 1, {117}) /\ \A k \in 2..5 : At(t, i + k, Hex) THEN GChars(t, i + 6)
             ELSE {}
        ELSE IF t[i] # 34 /\ t[i] >= 32 /\ t[i] < BadByte THEN GChars(t, i + 1) ELSE {})
GString(t, i) ==
  LET G1(j) == GChars(t, j)
      G2(j) == Ch(t, j, 34)
  IN Then(Then(Ch(t, i, 34), G1), G2)

RECURSIVE GValue(_, _), GElems(_, _), GMembers(_, _), GObject(_, _)
GElem(t, i) ==
  LET G1(j) == GValue(t, j)
      G2(j) == GWs(t, j)
  IN Then(Then(GWs(t, i), G1), G2)
GElems(t, i) ==
  LET one == GElem(t, i)
      G1(j) == Ch(t, j, 44)
      G2(j) == GElems(t, j)
  IN one \cup Then(Then(one, G1), G2)
GArray(t, i) ==
  LET open == Ch(t, i, 91)
      G1(j) == GWs(t, j) \cup GElems(t, j)
      G2(j) == Ch(t, j, 93)
  IN Then(Then(open, G1), G2)
GMember(t, i) ==
  LET G1(j) == GString(t, j)
      G2(j) == GWs(t, j)
      G3(j) == Ch(t, j, 58)
      G4(j) == GElem(t, j)
  IN Then(Then(Then(Then(GWs(t, i), G1), G2), G3), G4)
GMembers(t, i) ==
  LET one == GMember(t, i)
      G1(j) == Ch(t, j, 44)
      G2(j) == GMembers(t, j)
  IN one \cup Then(Then(one, G1), G2)
GObject(t, i) ==
  LET open == Ch(t, i, 123)
      G1(j) == GWs(t, j) \cup GMembers(t, j)
      G2(j) == Ch(t, j, 125)
  IN Then(Then(open, G1), G2)
GValue(t, i) ==
  Word(t, i, <<116,114,117,101>>) \cup Word(t, i, <<102,97,108,115,101>>) \cup Word(t, i, <<110,117,108,108>>)
  \cup GNumber(t, i) \cup GString(t, i) \cup GArray(t, i) \cup GObject(t, i)

\* the root of a document is an object, without surrounding white space
InGrammar(t) == (Len(t) + 1) \in GObject(t, 1)
=============================================================================
