------------------------------ MODULE MalSpec ------------------------------
(***************************************************************************)
(* Messages no honest node makes.  Of a malformed object nothing is known  *)
(* but that receiving it ends, with an error or with a result -- and with  *)
(* an error where the malformation is one every public verification sees.  *)
(***************************************************************************)
EXTENDS ProtoBase
Ended(e) == e.res \in {"ok", "err"}
MalStep(s, e) == R(Ok(e), Put(s, e.out, [mal |-> e.what]))
\* malformations that leave a dealing publicly acceptable
Harmless == {"same", "comid", "comsum", "comint", "ctzero"}
RxStep(s, e) ==
  LET i == e.step IN
  R(/\ Ended(e)
    /\ (i.op = "pubver" /\ Has(e, "what")) => (e.what \notin Harmless \cup (IF i.tr.t \in {"rand", "unm"} THEN {"proofnone"} ELSE {}) => e.res = "err")
    /\ Has(e, "must") => (e.res = "err" \/ (Has(e, "good") /\ ~e.good)), s)
MalOps == {"mal", "rx", "raw", "rawcurve"}
MalStep1(s, e) == CASE e.op = "mal" -> MalStep(s, e) [] e.op = "rx" -> RxStep(s, e) [] e.op = "raw" -> R(Ended(e), s) [] e.op = "rawcurve" -> R(e.res = "err", s)
MalRun(s, e) == IF e.res = "skip" THEN R(e.msg \notin DOMAIN s.o, s) ELSE MalStep1(s, e)
=============================================================================
