------------------------------- MODULE Gen_Soup -------------------------------
(***************************************************************************)
(* All texts over an alphabet up to a length, each between a beginning and *)
(* an end: nothing is assumed about which of them make sense.  Checked on  *)
(* the way: the automaton has exactly one verdict for each of them, and a  *)
(* text that is dead stays dead whatever follows.                          *)
(***************************************************************************)
EXTENDS HJText, Json

CONSTANTS Chars, MaxLen, Context

Ctx == CASE Context = "value"  -> <<<<LBR, Q, 97, Q, COLON>>, <<RBR>>>>
         [] Context = "map"    -> <<<<LBR>>, <<RBR>>>>
         [] Context = "array"  -> <<<<LBR, Q, 97, Q, COLON, LSQ>>, <<RSQ, RBR>>>>
         [] Context = "second" -> <<<<LBR, Q, 97, Q, COLON, 49, COMMA>>, <<RBR>>>>
         [] Context = "after"  -> <<<<LBR, Q, 97, Q, COLON, Q, 98, Q>>, <<RBR>>>>
         [] Context = "string" -> <<<<LBR, Q, 97, Q, COLON, LSQ, Q>>, <<Q, RSQ, RBR>>>>
         [] Context = "key"    -> <<<<LBR, Q>>, <<Q, COLON, LSQ, RSQ, RBR>>>>
         [] Context = "bare"   -> <<<<>>, <<>>>>

VARIABLES txt, st
vars == <<txt, st>>
Whole(t) == Ctx[1] \o t \o Ctx[2]
Init == txt = <<>> /\ st = Run(Ctx[1]) /\ PrintT("CASE " \o ToJson(Whole(<<>>)))
Next == /\ Len(txt) < MaxLen
        /\ \E c \in Chars : /\ txt' = Append(txt, c)
                            /\ st' = Step(st, c)
                            /\ PrintT("CASE " \o ToJson(Whole(Append(txt, c))))
Spec == Init /\ [][Next]_vars
OneVerdict == Verdict(FoldLeft(Step, st, Ctx[2])) \in {"accept", "may", "any", "reject"}
DeadStays == st.m = "dead" => \A c \in Chars : Step(st, c).m = "dead"
=============================================================================
