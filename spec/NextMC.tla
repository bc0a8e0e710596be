------------------------------- MODULE NextMC -------------------------------
(***************************************************************************)
(* Derivation indices: counting up from an index.  x is the index, v the   *)
(* number it stands for, k the bytes it began with.                        *)
(***************************************************************************)
EXTENDS ProtoSpec
CONSTANT Steps
VARIABLES x, v, k, n
vars == <<x, v, k, n>>
Starts == {"", "00", "0000", "000000", "00000000", "fd", "00fe00", "fffd", "fffffd", "fffefffe", "ffffffff"}
RECURSIVE Val(_)
Val(h) == IF HLen(h) = 0 THEN 0 ELSE 256 * Val(HSub(h, 0, HLen(h) - 1)) + HByte(h, HLen(h) - 1)
Small(h) == HLen(h) < 4   \* a number TLC can hold
Init == x \in Starts /\ v = (IF Small(x) THEN Val(x) ELSE 0) /\ k = HLen(x) /\ n = 0
Next == n < Steps /\ n' = n + 1 /\ x' = BeNext(x) /\ v' = (IF Small(x') THEN Val(x') ELSE 0) /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
AllFf(h) == \A i \in 1..HLen(h) : HByte(h, i - 1) = 255
\* the number grows by one; the length only when every byte was 255; it is never the same again
Succ == [][/\ Small(x') => v' = v + 1
           /\ HLen(x') = HLen(x) + (IF AllFf(x) THEN 1 ELSE 0)
           /\ (HLen(x') = HLen(x) => HCmp(x', x) > 0)
           /\ (HLen(x') > HLen(x) => HByte(x', 0) = 1 /\ HIsZero(HSub(x', 1, HLen(x'))))]_vars
=============================================================================
