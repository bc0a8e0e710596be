------------------------------ MODULE ShamirMC ------------------------------
(***************************************************************************)
(* The laws of sharing and committing that the protocol rests on, for all  *)
(* polynomials and sets of positions over a small field.                   *)
(***************************************************************************)
EXTENDS SmallField
CONSTANTS MaxLen, Orders
VARIABLES a, b, xs, x, n
vars == <<a, b, xs, x, n>>
Polys == UNION {SeqN(F, k) : k \in 0..MaxLen}
Asc(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* increasing positions, and all orders of those of length MaxLen if Deep
Sets == UNION {{s \in SeqN(F, k) : Asc(s) \/ (Orders /\ k = MaxLen /\ NoDup(s))} : k \in 1..MaxLen}
\* walk through all of them, one choice after another
Init == a = << >> /\ b = <<0, 2>> /\ xs = <<0>> /\ x = 0 /\ n = 0
Next == \/ n = 0 /\ n' = 1 /\ a' \in Polys /\ UNCHANGED <<b, xs, x>>
        \/ n = 1 /\ n' = 2 /\ xs' \in Sets /\ UNCHANGED <<a, b, x>>
        \/ n = 2 /\ n' = 3 /\ x' \in F /\ b' \in {b, <<Q - 1, 0, 1>>, <<1>>} /\ (xs = <<0>> \/ b' = b) /\ UNCHANGED <<a, xs>>
Spec == Init /\ [][Next]_vars
SCom(c) == ComS(c, MaxLen)
On(c, ss) == [i \in 1..Len(ss) |-> Eval(c, ss[i])]
\* evaluation is a ring homomorphism, whatever zeros trail
Ring == /\ Eval(PolyAdd(a, b), x) = ScAdd(Eval(a, x), Eval(b, x))
        /\ Eval(PolyMul(a, b), x) = ScMul(Eval(a, x), Eval(b, x))
        /\ Eval(PolyScale(a, x), x) = ScMul(x, Eval(a, x))
        /\ Eval(Trim(a), x) = Eval(a, x) /\ PolyAdd(a, b) = PolyAdd(b, a) /\ PolyMul(a, b) = PolyMul(b, a)
        /\ Trim(PolyMul(a, b)) = PolyMul(a, b)
\* as many samples as coefficients determine the polynomial, its values and its commitment everywhere
Interpolate == Len(xs) >= Len(Trim(a)) =>
   /\ InterpPoly(xs, On(a, xs)) = Trim(a)
   /\ InterpSc(xs, On(a, xs), x) = Eval(a, x)
   /\ InterpPt(xs, [i \in 1..Len(xs) |-> Com1(Eval(a, xs[i]))], x) = Com1(Eval(a, x))
\* with fewer, every value at another position is still possible: the samples say nothing about it
Hiding == (Len(xs) < MaxLen /\ x \notin {xs[i] : i \in 1..Len(xs)} /\ Len(a) = MaxLen) =>
   \A v \in F : \E c \in SeqN(F, MaxLen) : On(c, xs) = On(a, xs) /\ Eval(c, x) = v
\* commitments evaluate to commitments of the values, and open to nothing else
Commit == /\ EvalCom(SCom(a), x) = Com1(Eval(a, x))
          /\ EvalCom(ComP(a, b, MaxLen), x) = Com2(Eval(a, x), Eval(b, x))
          /\ \A v, m \in F : /\ Opens([k |-> "P", p |-> ComP(a, b, MaxLen)], x, [k |-> "P", v |-> v, m |-> m]) = (v = Eval(a, x) /\ m = Eval(b, x))
                             /\ Opens([k |-> "S", p |-> SCom(a)], x, [k |-> "S", v |-> v, m |-> 0]) = (v = Eval(a, x))
                             /\ ~Opens([k |-> "S", p |-> SCom(a)], x, [k |-> "P", v |-> v, m |-> m])
=============================================================================
