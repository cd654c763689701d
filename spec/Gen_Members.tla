------------------------------ MODULE Gen_Members -----------------------------
(***************************************************************************)
(* All objects of up to MaxMembers members over two keys and one value of  *)
(* every kind, so that keys are repeated with every pair (and triple) of   *)
(* kinds.  Checked on the way: the automaton accepts each of them, keeps   *)
(* the keys in order of first appearance and the last value of each.       *)
(***************************************************************************)
EXTENDS HJText, Json

CONSTANTS MaxMembers, Context

Keys == <<  <<97>>, <<98, 98>> >>
Values == <<
  <<110, 117, 108, 108>>, <<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<48>>, <<45, 51>>, <<49, 46, 53>>,
  <<34, 34>>, <<34, 120, 34>>, <<123, 125>>, <<91, 93>>,
  <<123, 34, 97, 34, 58, 49, 125>>, <<91, 50, 93>>, <<51, 48, 48, 48, 48, 48, 48, 48, 48, 48>> >>
Node(t) == Run(<<LBR, Q, Q, COLON>> \o t \o <<RBR>>).root.vs[1]

VARIABLE ms
vars == <<ms>>
Member(m) == <<Q>> \o Keys[m[1]] \o <<Q, COLON>> \o Values[m[2]]
Body == FoldLeft(LAMBDA a, m : (IF a = <<>> THEN a ELSE a \o <<COMMA>>) \o Member(m), <<>>, ms)
Object == <<LBR>> \o Body \o <<RBR>>
Text == CASE Context = "top"   -> Object
          [] Context = "inner" -> <<LBR, Q, 97, Q, COLON, LSQ>> \o Object \o <<RSQ, COMMA, Q, 98, Q, COLON>> \o Object \o <<RBR>>

Init == ms = <<>>
Next == /\ Len(ms) < MaxMembers
        /\ \E k \in 1..Len(Keys), v \in 1..Len(Values) :
             /\ ms' = Append(ms, <<k, v>>)
             /\ PrintT("CASE " \o ToJson(Text'))
Spec == Init /\ [][Next]_vars

Order == FoldLeft(LAMBDA a, m : IF Keys[m[1]] \in ToSet(a) THEN a ELSE Append(a, Keys[m[1]]), <<>>, ms)
LastOf(k) == LET at == {i \in 1..Len(ms) : Keys[ms[i][1]] = k} IN ms[CHOOSE i \in at : \A j \in at : j <= i][2]
LastWins == LET st == Run(Object)
            IN /\ Verdict(st) = "accept"
               /\ st.root.ks = Order
               /\ \A i \in 1..Len(Order) : st.root.vs[i] = Node(Values[LastOf(Order[i])])
=============================================================================
