------------------------------ MODULE HJCycle ------------------------------
(***************************************************************************)
(* Containers may be put into each other in any way, so the objects form a *)
(* graph and not always a tree.  Serialising and cloning walk it depth     *)
(* first.  A container that is reached along two ways (a diamond) has a    *)
(* finite text; one that contains itself has none, and the walk has to     *)
(* report that instead of running for ever (C19).  Three designs:          *)
(*   path     remembers the containers it is inside of                     *)
(*   visited  remembers every container it has seen (refuses diamonds)     *)
(*   naive    remembers nothing (never ends on a cycle)                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS Design, Nodes, MaxOut

\* which containers can be reached from the elements of n, in g
RECURSIVE Grow(_, _)
Grow(g, S) == LET T == S \cup UNION {ToSet(g[n]) : n \in S} IN IF T = S THEN S ELSE Grow(g, T)
Below(g, n) == Grow(g, ToSet(g[n]))
\* a document without a text: some container in it contains itself
Endless(g, root) == \E n \in {root} \cup Below(g, root) : n \in Below(g, n)

VARIABLES graph, stack, seen, result
vars == <<graph, stack, seen, result>>
Lists == UNION {[1..k -> Nodes] : k \in 0..MaxOut}
\* an entry of the stack: a container and the next of its elements
Init == /\ graph \in [Nodes -> Lists]
        /\ stack = <<[n |-> 1, i |-> 1]>> /\ seen = {1} /\ result = "none"
Top == stack[Len(stack)]
Refuses(m) == CASE Design = "path"    -> m \in {stack[k].n : k \in 1..Len(stack)}
                [] Design = "visited" -> m \in seen
                [] OTHER -> FALSE
Down == /\ result = "none" /\ stack # <<>> /\ Top.i <= Len(graph[Top.n])
        /\ LET m == graph[Top.n][Top.i]
               rest == [stack EXCEPT ![Len(stack)].i = @ + 1]
           IN IF Refuses(m)
              THEN result' = "err" /\ UNCHANGED <<stack, seen>>
              ELSE stack' = Append(rest, [n |-> m, i |-> 1]) /\ seen' = seen \cup {m} /\ UNCHANGED result
        /\ UNCHANGED graph
Up == /\ result = "none" /\ stack # <<>> /\ Top.i > Len(graph[Top.n])
      /\ stack' = Front(stack) /\ result' = IF Len(stack) = 1 THEN "ok" ELSE "none"
      /\ UNCHANGED <<graph, seen>>
Next == Down \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == Len(stack) <= Cardinality(Nodes)
Right == result # "none" => (result = "err") = Endless(graph, 1)
Ends == <>(result # "none")
=============================================================================
