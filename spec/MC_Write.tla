------------------------------ MODULE MC_Write ------------------------------
(***************************************************************************)
(* The reference serialiser and the parser automaton are inverse to each   *)
(* other on every document of a bounded size: documents are grown node by  *)
(* node, each reachable document is one state.                             *)
(***************************************************************************)
EXTENDS HJWrite

CONSTANTS MaxSize, StrLen

Chars   == {Q, BSL, 97, 10, 0, 233, COMMA, RBR}
Strings == UNION {[1..n -> Chars] : n \in 0..StrLen}
KeySet  == {<<>>, <<97>>, <<Q>>}
Nums    == {<<48>>, <<MINUS, 49>>, <<49, DOT, 53>>, <<50, 101, 51>>}
Leaves  == {[t |-> "null"], [t |-> "bool", b |-> 1], [t |-> "bool", b |-> 0]}
           \cup {[t |-> "num", l |-> n] : n \in Nums}
           \cup {[t |-> "str", s |-> s] : s \in Strings}
Empties == {[t |-> "arr", vs |-> <<>>], [t |-> "map", ks |-> <<>>, vs |-> <<>>]}

\* every document obtained by adding one leaf or empty container at the end of
\* some container of x
RECURSIVE Grow(_)
Grow(x) ==
  IF x.t = "arr" THEN {[x EXCEPT !.vs = Append(x.vs, v)] : v \in Leaves \cup Empties}
                      \cup UNION {{[x EXCEPT !.vs[k] = y] : y \in Grow(x.vs[k])} : k \in 1..Len(x.vs)}
  ELSE IF x.t = "map" THEN {[x EXCEPT !.ks = Append(x.ks, q), !.vs = Append(x.vs, v)] : q \in KeySet \ ToSet(x.ks), v \in Leaves \cup Empties}
                      \cup UNION {{[x EXCEPT !.vs[k] = y] : y \in Grow(x.vs[k])} : k \in 1..Len(x.vs)}
  ELSE {}

VARIABLE doc
Init == doc = [t |-> "map", ks |-> <<>>, vs |-> <<>>]
Next == NodeSize(doc) < MaxSize /\ \E d \in Grow(doc) : doc' = d
Spec == Init /\ [][Next]_doc

RoundTrip == LET st == Run(Write(doc)) IN Verdict(st) = "accept" /\ st.root = doc
Stable  == Write(Run(Write(doc)).root) = Write(doc)
Lexical == \A k \in 1..Len(Write(doc)) : Write(doc)[k] >= 32
=============================================================================
