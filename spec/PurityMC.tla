------------------------------ MODULE PurityMC ------------------------------
(***************************************************************************)
(* Why concurrent calls may be judged one by one (Steps!ParStep) and calls *)
(* by their arguments alone (Steps!PureStep): four calls over two shared  *)
(* objects of two cells, interleaved read by read.  Each call adds up the  *)
(* cells of an object, weighted by its own factor, as an interpolation     *)
(* does.                                                                   *)
(*   How = "pure"      reads only                                          *)
(*   How = "locked"    keeps the last result in a shared cache, key and    *)
(*                     value in one step                                   *)
(*   How = "inplace"   multiplies the object's cells where they are        *)
(*   How = "restore"   ... and divides them again at the end               *)
(*   How = "cache"     keeps key and value in the cache, one after another *)
(*   How = "keyless"   the cache's key leaves out the factor               *)
(* Invariants hold for the first two and fail for the others (the runner   *)
(* expects that: the properties are not vacuous).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT How
Q == 5
Calls == {1, 2, 3, 4}   \* the last two are equal
Obj(c) == IF c = 2 THEN 2 ELSE 1
Factor(c) == IF c = 1 THEN 2 ELSE 3
Start == [o \in {1, 2} |-> <<o, o + 1>>]
Inv5(x) == CHOOSE y \in 0..4 : (x * y) % Q = 1
VARIABLES mem, pc, acc, out, cache
vars == <<mem, pc, acc, out, cache>>
None == -1
Init == mem = Start /\ pc = [c \in Calls |-> 1] /\ acc = [c \in Calls |-> 0] /\ out = [c \in Calls |-> None] /\ cache = [key |-> <<0, 0>>, val |-> None]
Serial(c) == (Factor(c) * (Start[Obj(c)][1] + Start[Obj(c)][2])) % Q
Key(c) == IF How = "keyless" THEN <<Obj(c), 0>> ELSE <<Obj(c), Factor(c)>>
Cached == How \in {"locked", "cache", "keyless"}
InPlace == How \in {"inplace", "restore"}
Stop == 9
Look(c) == /\ pc[c] = 1
           /\ IF Cached /\ cache.key = Key(c) /\ cache.val # None
              THEN out' = [out EXCEPT ![c] = cache.val] /\ pc' = [pc EXCEPT ![c] = Stop]
              ELSE pc' = [pc EXCEPT ![c] = 2] /\ UNCHANGED out
           /\ UNCHANGED <<mem, acc, cache>>
Scale(c, k) == /\ pc[c] = 1 + k /\ k \in {1, 2}
               /\ IF InPlace THEN mem' = [mem EXCEPT ![Obj(c)][k] = (@ * Factor(c)) % Q] ELSE UNCHANGED mem
               /\ pc' = [pc EXCEPT ![c] = 2 + k] /\ UNCHANGED <<acc, out, cache>>
Read(c, k) == /\ pc[c] = 3 + k /\ k \in {1, 2}
              /\ acc' = [acc EXCEPT ![c] = (@ + mem[Obj(c)][k] * (IF InPlace THEN 1 ELSE Factor(c))) % Q]
              /\ pc' = [pc EXCEPT ![c] = 4 + k] /\ UNCHANGED <<mem, out, cache>>
End(c) == /\ pc[c] = 6
          /\ out' = [out EXCEPT ![c] = acc[c]]
          /\ IF How = "restore" THEN mem' = [mem EXCEPT ![Obj(c)] = <<(@[1] * Inv5(Factor(c))) % Q, (@[2] * Inv5(Factor(c))) % Q>>] ELSE UNCHANGED mem
          /\ cache' = CASE How \in {"locked", "keyless"} -> [key |-> Key(c), val |-> acc[c]] [] How = "cache" -> [cache EXCEPT !.key = Key(c)] [] OTHER -> cache
          /\ pc' = [pc EXCEPT ![c] = IF How = "cache" THEN 7 ELSE Stop] /\ UNCHANGED acc
Fill(c) == pc[c] = 7 /\ cache' = [cache EXCEPT !.val = acc[c]] /\ pc' = [pc EXCEPT ![c] = Stop] /\ UNCHANGED <<mem, acc, out>>
Next == \E c \in Calls : Look(c) \/ Scale(c, 1) \/ Scale(c, 2) \/ Read(c, 1) \/ Read(c, 2) \/ End(c) \/ Fill(c)
Spec == Init /\ [][Next]_vars
SerialResults == \A c \in Calls : out[c] # None => out[c] = Serial(c)
Untouched == (\A c \in Calls : pc[c] = Stop) => mem = Start
=============================================================================
