------------------------------ MODULE MC_Text -------------------------------
(***************************************************************************)
(* Exhaustive comparison of the automaton (HJText) with the grammar        *)
(* (HJGrammar): every text over a small alphabet up to a length, where a   *)
(* prefix the automaton calls dead is extended by a few more characters to *)
(* see that it really is.                                                  *)
(***************************************************************************)
EXTENDS HJText, HJGrammar

CONSTANTS Chars,    \* alphabet, code points
          Prefix,   \* 0: nothing, 1: {"a":  2: {"a":"  3: {"a":[
          MaxLen, Beyond

P == CASE Prefix = 0 -> <<>> [] Prefix = 1 -> <<LBR, Q, 97, Q, COLON>>
       [] Prefix = 2 -> <<LBR, Q, 97, Q, COLON, Q>> [] Prefix = 3 -> <<LBR, Q, 97, Q, COLON, LSQ>>

VARIABLES txt, st, dead
Init == txt = P /\ st = Run(P) /\ dead = 0
Next == /\ Len(txt) - Len(P) < MaxLen /\ dead <= Beyond
        /\ \E c \in Chars : /\ txt' = Append(txt, c) /\ st' = Step(st, c)
                            /\ dead' = IF Step(st, c).m = "dead" THEN dead + 1 ELSE 0
Spec == Init /\ [][Next]_<<txt, st, dead>>

Sur == \E i \in 1..Len(txt) - 1 : txt[i] = BSL /\ txt[i + 1] = 117
\* surrogates that are not a pair: outside of the strict language, though in the grammar
Agrees ==
  LET v == Verdict(st)
      g == InGrammar(txt)
  IN /\ v = "accept" => g
     /\ (g /\ v # "accept") => \/ (v = "any" /\ Sur)
                               \/ (v = "reject" /\ \E k \in 1..Len(txt) - 3 : txt[k] \in {69, 101} /\ txt[k + 1] \in Dig /\ txt[k + 2] \in Dig /\ txt[k + 3] \in Dig)
\* the document built by an accepted text has as many atoms and keys as the text
RECURSIVE CountStr(_)
CountStr(x) == CASE x.t = "str" -> 1
                 [] x.t = "arr" -> FoldLeft(LAMBDA a, y : a + CountStr(y), 0, x.vs)
                 [] x.t = "map" -> FoldLeft(LAMBDA a, y : a + CountStr(y), Len(x.ks), x.vs)
                 [] OTHER -> 0
Quotes == Cardinality({i \in 1..Len(txt) : txt[i] = Q})
Built == (Verdict(st) = "accept" /\ BSL \notin Chars) => 2 * CountStr(st.root) <= Quotes
\* removing the white space between tokens does not change the document
StripWs(t) == SelectSeq(t, LAMBDA c : ~IsWs(c))
WsFree == (Verdict(st) = "accept" /\ Q \notin Chars) =>
            LET s2 == Run(P \o StripWs(SubSeq(txt, Len(P) + 1, Len(txt)))) IN s2.root = st.root \/ s2.m = "dead"
=============================================================================
