------------------------------- MODULE HJConc -------------------------------
(***************************************************************************)
(* Clients that use the library at the same time, without locks, while     *)
(* nobody changes the document they share.  Each of them runs a program of *)
(* calls; a call takes many steps, and steps of different clients are      *)
(* interleaved.  A step reads and writes locations:                        *)
(*   <<"doc", n>>    cell n of the shared document                         *)
(*   <<"own", g>>    what client g has for itself                          *)
(*   <<"glob", 0>>   something of the library that all calls share         *)
(* The library may use only the first (for reading) and the second.        *)
(* The design of the library is chosen by the constant Design:             *)
(*   "private"   as above; what is promised                                *)
(*   "global"    parsers keep their counters in one place                  *)
(*   "lazy"      the first reader of a document leaves a cache behind      *)
(*   "locked"    the same cache, every step under a lock                   *)
(*   "shallow"   a clone shares the cells of the document                  *)
(* All but the first must be found wrong (negative controls).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Design, Programs, Emit

\* the shared document: cells that hold numbers
Doc0 == <<3, 5>>
\* texts: brackets (-1 opens, -2 closes) and numbers; a parser counts what is
\* open and adds up the numbers
Open == -1
Close == -2
Texts == [p |-> <<Open, 1, Close>>, q |-> <<Open, Open, 2, Close, Close>>, bad |-> <<Open, 1>>]

\* what every call returns when it is alone
Weight(x) == IF x = Open THEN 1 ELSE IF x = Close THEN -1 ELSE 0
Num(x) == IF x < 0 THEN 0 ELSE x
RECURSIVE SumOf(_, _)
SumOf(F(_), t) == IF t = <<>> THEN 0 ELSE F(Head(t)) + SumOf(F, Tail(t))
Ok(x) == [ok |-> TRUE, v |-> x]
Err == [ok |-> FALSE, v |-> <<>>]
ParseOf(t) == IF SumOf(Weight, t) = 0 THEN Ok(<<SumOf(Num, t)>>) ELSE Err
Alone(c) == IF c.c = "parse" THEN ParseOf(Texts[c.x]) ELSE Ok(Doc0)

Clients == 1..Len(Programs)

VARIABLES doc,    \* the shared document
          glob,   \* what the library shares between calls
          pc,     \* client -> number of the call it is in or will start
          loc,    \* client -> state of the call
          res,    \* client -> results so far
          sched   \* the order in which calls ended
vars == <<doc, glob, pc, loc, res, sched>>

Idle == [k |-> 0, acc |-> <<>>, n |-> 0]
Init == /\ doc = Doc0
        /\ glob = [cnt |-> 0, cache |-> <<>>]
        /\ pc = [g \in Clients |-> 1]
        /\ loc = [g \in Clients |-> Idle]
        /\ res = [g \in Clients |-> <<>>]
        /\ sched = <<>>

Call(g) == Programs[g][pc[g]]
Running(g) == pc[g] <= Len(Programs[g])

\* the accesses of the next step of client g: <<location, writes?>>
Own(g) == <<<<"own", g>>, TRUE>>
Cell(l) == IF l.k < Len(doc) THEN {<<<<"doc", l.k + 1>>, FALSE>>} ELSE {}
Glob(w) == <<<<"glob", 0>>, w>>
Accesses(g) ==
  LET c == Call(g)  l == loc[g]
  IN {Own(g)} \cup
     CASE c.c = "parse" -> IF Design = "global" THEN {Glob(TRUE)} ELSE {}
       [] c.c = "read" -> Cell(l) \cup (IF Design = "lazy" THEN {Glob(glob.cache = <<>>)} ELSE {})
       [] c.c = "clone" -> IF l.k < Len(doc) THEN Cell(l)
                           ELSE IF Design = "shallow" THEN {<<<<"doc", 1>>, TRUE>>} ELSE {}

End(g, r) == /\ res' = [res EXCEPT ![g] = Append(@, r)]
             /\ pc' = [pc EXCEPT ![g] = @ + 1]
             /\ loc' = [loc EXCEPT ![g] = Idle]
             /\ sched' = Append(sched, g)
Go(g, l) == /\ loc' = [loc EXCEPT ![g] = l]
            /\ UNCHANGED <<res, pc, sched>>

\* a parser takes one character after the other
StepParse(g) ==
  LET t == Texts[Call(g).x]
      l == loc[g]
      cnt == IF l.k = 0 THEN 0 ELSE IF Design = "global" THEN glob.cnt ELSE l.n
      x == t[l.k + 1]
      n2 == cnt + Weight(x)
      sum == (IF l.k = 0 THEN 0 ELSE l.acc[1]) + Num(x)
  IN /\ Call(g).c = "parse"
     /\ glob' = IF Design = "global" THEN [glob EXCEPT !.cnt = n2] ELSE glob
     /\ UNCHANGED doc
     /\ IF l.k + 1 = Len(t) THEN End(g, IF n2 = 0 THEN Ok(<<sum>>) ELSE Err)
        ELSE Go(g, [k |-> l.k + 1, acc |-> <<sum>>, n |-> n2])

\* a reader looks at one cell after the other; acc holds what it saw
StepRead(g) ==
  LET l == loc[g]
  IN /\ Call(g).c = "read"
     /\ UNCHANGED doc
     /\ IF Design \in {"lazy", "locked"} /\ l.k = 0 /\ glob.cache # <<>>
        THEN End(g, Ok(glob.cache)) /\ UNCHANGED glob
        ELSE IF l.k = Len(doc) THEN End(g, Ok(l.acc)) /\ UNCHANGED glob
        ELSE LET acc == Append(l.acc, doc[l.k + 1])
             IN /\ Go(g, [k |-> l.k + 1, acc |-> acc, n |-> 0])
                /\ glob' = IF Design \in {"lazy", "locked"} THEN [glob EXCEPT !.cache = acc] ELSE glob

\* who clones changes the clone afterwards
StepClone(g) ==
  LET l == loc[g]
  IN /\ Call(g).c = "clone"
     /\ UNCHANGED glob
     /\ IF l.k < Len(doc)
        THEN Go(g, [k |-> l.k + 1, acc |-> Append(l.acc, doc[l.k + 1]), n |-> 0]) /\ UNCHANGED doc
        ELSE /\ doc' = IF Design = "shallow" THEN [doc EXCEPT ![1] = 99] ELSE doc
             /\ End(g, Ok(l.acc))

Step(g) == Running(g) /\ (StepParse(g) \/ StepRead(g) \/ StepClone(g))
Next == \E g \in Clients : Step(g)
Spec == Init /\ [][Next]_vars /\ \A g \in Clients : WF_vars(Step(g))

Done == \A g \in Clients : ~Running(g)

(* ------------------------------ properties ----------------------------- *)
AsAlone == \A g \in Clients : \A k \in 1..Len(res[g]) : res[g][k] = Alone(Programs[g][k])
Untouched == doc = Doc0
\* no two clients are about to touch the same location, one of them writing
NoRace == \A g, h \in Clients : (g # h /\ Running(g) /\ Running(h)) =>
            \A a \in Accesses(g), b \in Accesses(h) : a[1] = b[1] => ~a[2] /\ ~b[2]
Terminates == <>Done

\* the orders in which the calls may end, for the conformance check
Report == IF Emit /\ Done THEN PrintT("CASE " \o ToJson(sched)) ELSE TRUE

(* ------------------------------- programs ------------------------------ *)
R == [c |-> "read", x |-> ""]
K == [c |-> "clone", x |-> ""]
P(x) == [c |-> "parse", x |-> x]
Mixed3 == << <<P("p"), R>>, <<R, K>>, <<P("bad"), P("q")>> >>
Mixed4 == << <<P("p"), R>>, <<K>>, <<P("bad")>>, <<R>> >>
Parsers == << <<P("p")>>, <<P("q")>>, <<P("bad")>> >>
Readers == << <<R, R>>, <<R>>, <<R, R>> >>
Cloners == << <<K, R>>, <<R, R>>, <<K>> >>
=============================================================================
