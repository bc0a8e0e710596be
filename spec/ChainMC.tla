------------------------------ MODULE ChainMC ------------------------------
(***************************************************************************)
(* Histories of sharings: new random secrets, resharings to another        *)
(* threshold and other dealers, products -- in any order, each from any of *)
(* the sharings before.  Three nodes, thresholds one and two.              *)
(*   Value      each sharing is of the value its history says              *)
(*   Held       every node's opening opens the transcript                  *)
(*   Quorum     any openings of as many nodes as the threshold determine   *)
(*              the value; fewer dealers than an operation needs get no    *)
(*              transcript                                                 *)
(*   Kinds      masked and unmasked are where they should be               *)
(***************************************************************************)
EXTENDS SmallField
CONSTANTS Max,        \* sharings in a history
          Seeds       \* choices of dealing polynomials
Nodes == {0, 1, 2}
VARIABLES hist        \* sequence of [op, tr, val, o: node -> opening, thr]
vars == <<hist>>
Ad == "ad"
Sets == {<<0>>, <<1>>, <<2>>, <<0, 1>>, <<2, 1>>, <<0, 2>>, <<1, 2, 0>>}
\* what a dealer of this seed uses besides the secret
Slope(s, i) == (s * (i + 2)) % Q
Mask(s, i) == <<(3 * s + i) % Q, (s + 2 * i) % Q>>
Fresh(s, i) == (2 * s + i) % Q
DealP(k, c, thr, s, i) ==
  LET a == IF thr = 1 THEN <<c>> ELSE <<c, Slope(s, i)>>
      b == IF thr = 1 THEN <<Mask(s, i)[1]>> ELSE Mask(s, i)
  IN [k |-> k, a |-> a, b |-> b, p |-> IF k = "S" THEN ComS(a, thr) ELSE ComP(a, b, thr)]
OpRec(t, x, y) == CASE t = "rand" -> [t |-> t] [] t \in {"unm", "msk"} -> [t |-> t, p1 |-> hist[x].tr] [] t = "mul" -> [t |-> t, p1 |-> hist[x].tr, p2 |-> hist[y].tr]
Const(t, x, y, s, i) == CASE t = "rand" -> Fresh(s, i) [] t \in {"unm", "msk"} -> hist[x].o[i].v [] t = "mul" -> ScMul(hist[x].o[i].v, hist[y].o[i].v)
Ds(t, x, y, thr, s, q) == [j \in 1..Len(q) |-> <<q[j], DealP(IF t \in {"rand", "mul"} THEN "P" ELSE "S", Const(t, x, y, s, q[j]), thr, s, q[j])>>]
Opened(tr, ds, i) == CombineOpen(tr.cls, tr.k, DXs(ds), [j \in 1..Len(ds) |-> Opening(tr.k, Eval(ds[j][2].a, NodeSc(i)), Eval(ds[j][2].b, NodeSc(i)))])
Value(t, x, y, s, q) == CASE t = "rand" -> SumSc([j \in 1..Len(q) |-> Fresh(s, q[j])]) [] t \in {"unm", "msk"} -> hist[x].val [] t = "mul" -> ScMul(hist[x].val, hist[y].val)
Fits(t, x, y) == CASE t = "rand" -> TRUE [] t = "unm" -> hist[x].tr.k = "S" [] t = "msk" -> hist[x].tr.k = "P" [] t = "mul" -> hist[x].tr.k = "S" /\ hist[y].tr.k = "P"
Enough(t, x, y, q) == Len(q) >= CASE t = "rand" -> 0 [] t \in {"unm", "msk"} -> hist[x].thr [] t = "mul" -> hist[x].thr + hist[y].thr - 1
Run(t, x, y, thr, s, q) ==
  LET ds == Ds(t, x, y, thr, s, q)  r == Transcript(OpRec(t, x, y), thr, ds) IN
  /\ r.ok
  /\ hist' = Append(hist, [op |-> t, tr |-> r.t, thr |-> thr, val |-> Value(t, x, y, s, q), o |-> [i \in Nodes |-> Opened(r.t, ds, i).o]])
Init == hist = << >>
Ix == 1..Len(hist)
Next == /\ Len(hist) < Max
        /\ \E thr \in {1, 2}, s \in Seeds, q \in Sets :
             \/ Run("rand", 1, 1, thr, s, q)
             \/ \E t \in {"unm", "msk"}, x \in Ix : Fits(t, x, x) /\ Run(t, x, x, thr, s, q)
             \/ \E x, y \in Ix : Fits("mul", x, y) /\ Run("mul", x, y, thr, s, q)
Spec == Init /\ [][Next]_vars
Newest == IF hist = << >> THEN {} ELSE {hist[Len(hist)]}
Value_ == \A e \in Newest : LET c == ConstTerm(e.tr) IN c[1] = e.val
Held == \A e \in Newest : \A i \in Nodes : OpensAt(e.tr, i, e.o[i]) /\ e.o[i].k = e.tr.k
Quorum == \A e \in Newest :
  /\ \A q \in Sets : Len(q) >= e.thr =>
       /\ InterpSc([j \in 1..Len(q) |-> NodeSc(q[j])], [j \in 1..Len(q) |-> e.o[q[j]].v], 0) = e.val
       /\ \A i \in Nodes : Recon([k |-> e.tr.k, p |-> e.tr.p], [j \in 1..Len(q) |-> <<q[j], e.o[q[j]]>>], i) = [ok |-> TRUE, o |-> e.o[i]]
  /\ \A q \in Sets : Len(q) < e.thr => ~Recon([k |-> e.tr.k, p |-> e.tr.p], [j \in 1..Len(q) |-> <<q[j], e.o[q[j]]>>], 0).ok
Kinds_ == \A e \in Newest : e.tr.k = (IF e.op \in {"rand", "mul"} THEN "P" ELSE "S") /\ e.tr.cls = (IF e.op = "rand" THEN "sum" ELSE "int") /\ Len(e.tr.p) = e.thr
\* a transcript is made of what fits and of enough dealers, and of nothing else
Refuses == Len(hist) < Max => \A t \in {"unm", "msk", "mul"}, x, y \in Ix, q \in Sets :
   Transcript(OpRec(t, x, y), 2, Ds(t, x, y, 2, 1, q)).ok = (Fits(t, x, y) /\ Enough(t, x, y, q))
\* a dealer who does not deal its share spoils a resharing of an unmasked sharing
Caught == Len(hist) < Max => \A x \in Ix, q \in Sets : (Fits("unm", x, x) /\ Enough("unm", x, x, q)) =>
   \A j \in 1..Len(q) : LET ds == Ds("unm", x, x, 1, 1, q) IN
      ~Transcript(OpRec("unm", x, x), 1, [ds EXCEPT ![j][2].p[1] = PtAdd(@, PtG)]).ok
=============================================================================
