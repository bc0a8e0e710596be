----------------------------- MODULE ProtoBase -----------------------------
(* State of a scenario: objects by name, and what hidden functions (the    *)
(* random oracle, the encryption masks) were seen to return.               *)
EXTENDS ShamirK
Empty == [x \in {} |-> 0]
StInit == [o |-> Empty, ro |-> Empty, mk |-> Empty]
Put(s, n, v) == IF n = "" THEN s ELSE [s EXCEPT !.o = (n :> v) @@ s.o]
Out(e) == Get(e, "out", "")
R(ok, s) == [ok |-> ok, s |-> s]
=============================================================================
