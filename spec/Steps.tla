------------------------------- MODULE Steps -------------------------------
(* The specification's transition for each kind of recorded event.         *)
EXTENDS Alg, PolySpec, ProtoSpec, HashSpec, ZkSpec, MalSpec
Step1(s, e) ==
  CASE e.op \in AlgOps -> R(AlgOk(e), s)
    [] e.op \in PolyOps -> R(PolyOk(e), s)
    [] e.op \in HashOps -> HashStep(s, e)
    [] e.op \in ZkOps -> ZkStep(s, e)
    [] e.op \in ProtoOps -> ProtoStep(s, e)
    [] e.op \in MalOps -> MalRun(s, e)
(***************************************************************************)
(* Concurrent calls.  None of them writes what another reads, so whatever  *)
(* the schedule each must have an outcome allowed in the state before all  *)
(* of them, equal calls equal outcomes, and the order of the list does not *)
(* matter (the hidden functions ro and mk must be functions across all of  *)
(* them).  Their results are not kept.                                     *)
(***************************************************************************)
RECURSIVE ParGo(_, _, _, _)
ParGo(o, s, evs, ok) == IF evs = << >> THEN R(ok, s)
  ELSE LET r == Step1([s EXCEPT !.o = o], Head(evs)) IN ParGo(o, r.s, Tail(evs), ok /\ r.ok)
ParStep(s, e) ==
  IF ~Ok(e) THEN R(FALSE, s)
  ELSE LET evs == Lst(e, "evs")
           first == [k \in {evs[i].step : i \in 1..Len(evs)} |-> evs[CHOOSE i \in 1..Len(evs) : evs[i].step = k]]
           same == \A i \in 1..Len(evs) : evs[i] = first[evs[i].step]
           \* equal events need judging once
           uniq == SelectSeq([i \in 1..Len(evs) |-> IF \E k \in 1..(i - 1) : evs[k] = evs[i] THEN [op |-> ""] ELSE evs[i]], LAMBDA x : x.op # "")
           r == ParGo(s.o, s, uniq, same)
       IN R(r.ok, [r.s EXCEPT !.o = s.o])
(***************************************************************************)
(* Purity.  Each call was made twice in a row and once more after all      *)
(* other scenarios of the process, in reverse order: its outcome is a      *)
(* function of its inputs (d1 = d2 = d3), and it changed no object that    *)
(* existed before it and no argument.  (What the outcome is, is judged by  *)
(* the other checks.)                                                      *)
(***************************************************************************)
PureStep(s, e) == R(e.d1 = e.d2 /\ e.d2 = e.d3 /\ Lst(e, "changed") = << >> /\ Lst(e, "args") = << >>, s)
Step(s, e) == IF Has(e, "d1") THEN PureStep(s, e) ELSE IF e.op = "par" THEN ParStep(s, e) ELSE Step1(s, e)
=============================================================================
