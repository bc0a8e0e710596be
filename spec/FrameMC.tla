------------------------------ MODULE FrameMC ------------------------------
(***************************************************************************)
(* The input of the random oracle determines the named inputs: a reader    *)
(* that knows only the format gets them back, whatever names, types and    *)
(* lengths were added in whatever order.  Hence different queries are      *)
(* different inputs.  The separator is kept apart by the expansion.        *)
(***************************************************************************)
EXTENDS HashSpec
CONSTANTS Names, Lens, Types, Max
VARIABLES o, ref, last
vars == <<o, ref, last>>
\* names that are prefixes of one another, look like lengths, or are as long as can be
Name(n) == CASE n = 0 -> "" [] n = 1 -> "01" [] n = 2 -> "0161" [] n = 3 -> "61" [] n = 4 -> "6101" [] n = 5 -> HRep("61", 255) [] n = 6 -> HRep("61", 256) [] n = 7 -> "ff" [] n = 8 -> "00"
Val(l) == IF l = 6 THEN "0161010000000161" ELSE IF l = 4 THEN "00000001" ELSE HRep("01", l)
Init == o = [sep |-> "", in |-> << >>] /\ ref = {} /\ last = TRUE
Add(n, t, l) == LET r == AddOne(o, Name(n), t, Val(l)) IN
   /\ last' = (r.ok = (n \notin {0, 6} /\ \A x \in ref : x.n # Name(n)))
   /\ o' = r.o /\ ref' = IF r.ok THEN ref \cup {[n |-> Name(n), ty |-> t, v |-> Val(l)]} ELSE ref
Next == Cardinality(ref) < Max /\ \E n \in Names, t \in Types, l \in Lens : Add(n, t, l)
Spec == Init /\ [][Next]_vars
B4(m, i) == ((HByte(m, i) * 256 + HByte(m, i + 1)) * 256 + HByte(m, i + 2)) * 256 + HByte(m, i + 3)
RECURSIVE Parse(_)
Parse(m) == IF HLen(m) = 0 THEN << >>
  ELSE LET a == HByte(m, 0)  l == B4(m, a + 2)
       IN <<[n |-> HSub(m, 1, a + 1), ty |-> HByte(m, a + 1), v |-> HSub(m, a + 6, a + 6 + l)]>> \o Parse(HSub(m, a + 6 + l, HLen(m)))
Reads == Parse(RoInput(o)) = o.in
Sorted == \A i \in 1..(Len(o.in) - 1) : HCmp(o.in[i].n, o.in[i + 1].n) < 0
Same == {o.in[i] : i \in 1..Len(o.in)} = ref /\ Cardinality(ref) = Len(o.in)
Refuses == last
\* the separator: what the expansion hashes tells separators apart by a length that comes last
RECURSIVE Ends(_)
Seps == {"", "00", "0000", "61", "6101", HRep("61", 254), HRep("61", 255), HRep("61", 256), HRep("61", 257), HRep("61", 511), HRep("61", 512)}
Ends(d) == LET p == DstPrime(d) l == HByte(p, HLen(p) - 1) IN HLen(p) = l + 1
ASSUME Separators == /\ \A d \in Seps : Ends(d)
              /\ \A d, e \in Seps : d # e => LET p == DstPrime(d) q == DstPrime(e) IN p # q
=============================================================================
