------------------------------ MODULE Gen_Text ------------------------------
(***************************************************************************)
(* Enumerates token sequences with the automaton of HJText and prints them *)
(* as cases for the driver: every live prefix, completed to a well-formed  *)
(* text, and every one-token extension that kills the automaton, alone and *)
(* completed as if the token had been ignored.  Checked on the way: the    *)
(* verdict of each printed text is the one the construction promises, and  *)
(* the automaton never leaves its invariant (TypeOK).                      *)
(***************************************************************************)
EXTENDS HJText, Json

CONSTANTS Alphabet,   \* name of the token alphabet
          MaxToks     \* length of the live prefixes

T_LBR == <<LBR>>    T_RBR == <<RBR>>   T_LSQ == <<LSQ>>   T_RSQ == <<RSQ>>
T_COM == <<COMMA>>  T_COL == <<COLON>>
T_STR == <<Q, 107, Q>>     \* "k"
T_NUM == <<49>>            \* 1
T_TRUE == TrueL

Tokens ==
  CASE Alphabet = "struct" -> <<T_LBR, T_RBR, T_LSQ, T_RSQ, T_COM, T_COL, T_STR, T_NUM>>
    [] Alphabet = "white"  -> <<T_LBR, T_RBR, T_LSQ, T_RSQ, T_COM, T_COL, T_STR, T_TRUE, <<32>>, <<10>>>>
    [] Alphabet = "number" -> <<<<45>>, <<48>>, <<49>>, <<57>>, <<46>>, <<101>>, <<69>>, <<43>>>>
    [] Alphabet = "word"   -> <<<<116>>, <<114>>, <<117>>, <<101>>, <<102>>, <<97>>, <<108>>, <<115>>, <<110>>, <<49>>, <<84>>>>
    [] Alphabet = "string" -> <<<<97>>, <<BSL>>, <<117>>, <<110>>, <<47>>, <<48,48,52,49>>, <<100,56,51,68>>, <<68,69,48,48>>,
                                <<233>>, <<128512>>, <<LBR>>, <<COMMA>>, <<32>>, <<BSL, Q>>>>
    [] Alphabet = "escape" -> <<<<BSL, 117, 48, 48, 101, 57>>, <<BSL, 117, 68, 56, 51, 68>>, <<BSL, 117, 68, 69, 48, 48>>,
                                <<BSL, 117, 48, 48, 48, 48>>, <<BSL, BSL>>, <<BSL, Q>>, <<BSL, SLASH>>, <<BSL, 110>>, <<117>>, <<65>>>>

\* the text before the first token
Before == CASE Alphabet \in {"struct", "white"} -> <<>>
            [] Alphabet \in {"number", "word"}  -> <<LBR, Q, 107, Q, COLON>>
            [] OTHER -> <<LBR, Q, 107, Q, COLON, Q>>

VARIABLES txt, st, n
vars == <<txt, st, n>>

Live(s) == s.m \notin {"dead", "open", "done"}

Closers(s) == [i \in 1..Len(s.stk) |-> IF s.stk[Len(s.stk) + 1 - i].k = "map" THEN RBR ELSE RSQ]
\* a shortest text that completes a live state to a well-formed document
Complete(s) ==
  CASE s.m = "start" -> <<LBR, RBR>>
    [] s.m \in {"key1", "val1", "after"} -> Closers(s)
    [] s.m = "key"   -> <<Q, 122, Q, COLON, 50>> \o Closers(s)
    [] s.m = "colon" -> <<COLON, 50>> \o Closers(s)
    [] s.m = "val"   -> <<50>> \o Closers(s)
    [] s.m = "str"   -> (IF s.isKey THEN <<Q, COLON, 50>> ELSE <<Q>>) \o Closers(s)
    [] s.m = "esc"   -> <<110>> \o (IF s.isKey THEN <<Q, COLON, 50>> ELSE <<Q>>) \o Closers(s)
    [] s.m = "hex"   -> [i \in 1..(4 - s.u) |-> 48] \o (IF s.isKey THEN <<Q, COLON, 50>> ELSE <<Q>>) \o Closers(s)
    [] s.m = "atom"  -> Closers(s)
    [] OTHER -> <<>>

Emit(t) == PrintT("CASE " \o ToJson(t))

\* what follows a token that was not allowed
Tails(s, tk) ==
  {<<>>, Complete(s)}
  \cup (IF tk = T_LBR THEN {<<RBR>> \o Complete(s)} ELSE {})
  \cup (IF tk = T_LSQ THEN {<<RSQ>> \o Complete(s)} ELSE {})
  \cup (IF tk = T_STR THEN {<<COLON, 51>> \o Complete(s)} ELSE {})
  \cup (IF tk \in {T_RBR, T_RSQ} /\ Len(s.stk) > 1 THEN {Tail(Closers(s))} ELSE {})

Init == txt = Before /\ st = Run(Before) /\ n = 0

Extend(k) ==
  LET tk == Tokens[k]
      t1 == txt \o tk
      s1 == FoldLeft(Step, st, tk)
  IN /\ n < MaxToks /\ Live(st)
     /\ txt' = t1 /\ st' = s1 /\ n' = n + 1
     /\ IF Live(s1) THEN Emit(t1 \o Complete(s1)) /\ (IF n < 2 THEN Emit(t1) ELSE TRUE)
        ELSE IF s1.m = "done"
             THEN Emit(t1) /\ \A j \in 1..Len(Tokens) : Emit(t1 \o Tokens[j])
             ELSE \A tl \in Tails(st, tk) : Emit(t1 \o tl)
Next == \E k \in 1..Len(Tokens) : Extend(k)
Spec == Init /\ [][Next]_vars

TypeOK ==
  /\ st.m \in {"start", "key1", "key", "colon", "val1", "val", "after", "str", "esc", "hex", "atom", "done", "dead", "open"}
  /\ st.fl \in {"strict", "may", "any"}
  /\ st.m = "done" => st.stk = <<>> /\ st.root.t = "map"
  /\ st.m \in {"start"} => st.stk = <<>>
  /\ Live(st) /\ st.m # "start" => Len(st.stk) >= 1
  /\ \A i \in 1..Len(st.stk) : st.stk[i].k = "map" => Len(st.stk[i].ks) = Len(st.stk[i].vs)
\* every live state can be completed: no dead end is reported late
Completable ==
  Live(st) => LET f == FoldLeft(Step, st, Complete(st))
              IN \/ f.m = "done"
                 \/ st.m = "atom" /\ (st.a \notin NumFinal \/ NumClass(st.buf) # "ok")
\* the automaton is deterministic and consumes the text: replaying gives the same state
Replays == st = Run(txt)
=============================================================================
