------------------------------- MODULE Gen_Int -------------------------------
(***************************************************************************)
(* Prints integer literals around every boundary of every integer type,    *)
(* computed with the digit arithmetic of HJBase, and checks that arithmetic *)
(* and the narrowest-type rule on the way.                                 *)
(***************************************************************************)
EXTENDS HJText, Json

RECURSIVE Inc(_), Dec(_)
Inc(d) == IF d = <<>> THEN <<1>> ELSE IF Last(d) < 9 THEN Append(Front(d), Last(d) + 1) ELSE Append(Inc(Front(d)), 0)
Dec(d) == IF Last(d) > 0 THEN StripLeft(Append(Front(d), Last(d) - 1)) ELSE StripLeft(Append(Dec(Front(d)), 9))

\* magnitudes of interest
Bounds == {MaxDigits[t] : t \in AllIntTypes} \cup {MinDigits[t] : t \in IntTypes}
Powers == {[i \in 1..k |-> IF i = 1 THEN 1 ELSE 0] : k \in 1..24}
Nines  == {[i \in 1..k |-> 9] : k \in 1..24}
Bases  == Bounds \cup Powers \cup Nines
Mags   == UNION {{b, Inc(b), Inc(Inc(b))} \cup (IF b # <<1>> THEN {Dec(b)} ELSE {}) : b \in Bases} \cup {<<>>}

Lit(neg, d) == (IF neg = 1 THEN <<MINUS>> ELSE <<>>) \o (IF d = <<>> THEN <<ZERO>> ELSE [i \in 1..Len(d) |-> d[i] + 48])

K(c) == <<Q, c, Q, COLON>>
Ctx(l) == { <<LBR>> \o K(97) \o l \o <<RBR>>,
            <<LBR>> \o K(97) \o <<LSQ>> \o l \o <<COMMA>> \o l \o <<RSQ, COMMA>> \o K(98) \o <<LBR>> \o K(99) \o l \o <<RBR, RBR>>,
            <<LBR>> \o K(97) \o <<LSQ, 32>> \o l \o <<32, RSQ, RBR>> }

VARIABLES neg, mag
Init == neg \in {0, 1} /\ mag \in Mags
Next == /\ neg # 2
        /\ \A t \in Ctx(Lit(neg, mag)) : PrintT("CASE " \o ToJson(t))
        /\ neg' = 2 /\ UNCHANGED mag
Spec == Init /\ [][Next]_<<neg, mag>>

ArithOK == /\ mag # <<>> => (Dec(Inc(mag)) = mag /\ CmpInt(mag, Inc(mag)) = -1 /\ CmpInt(Inc(mag), mag) = 1)
           /\ CmpInt(mag, mag) = 0
NarrowOK ==
  neg # 2 => LET x == NormInt(neg, mag)
                 t == Narrowest(neg, x)
             IN /\ t # "none" => Fits(t, x)
                /\ t = "none" <=> ~Fits(IF neg = 1 THEN "int64" ELSE "uint64", x)
                /\ \A t2 \in IF neg = 1 THEN IntTypes ELSE UIntTypes :
                     Fits(t2, x) => t # "none" /\ LeqInt(MaxDigits[t], MaxDigits[t2])
LitOK == neg # 2 => /\ IsNumber(Lit(neg, mag)) /\ IsIntegerLit(Lit(neg, mag))
                    /\ LitInt(Lit(neg, mag)) = NormInt(neg, mag)
=============================================================================
