--------------------------------- MODULE Gen ---------------------------------
(* Writes the scenarios of one family to OUT, one JSON object per line.    *)
(* The generator modules are the roots; this is their common end.          *)
EXTENDS GenBase
\* With PAR set: a sample of the family's calls that need no object, in concurrent groups.  Nothing ran
\* before them, so what a package keeps from a first use is first used by several of them at a time.
RECURSIVE Chunk(_, _)
Chunk(l, k) == IF l = << >> THEN << >> ELSE IF Len(l) <= k THEN << l >> ELSE << SubSeq(l, 1, k) >> \o Chunk(SubSeq(l, k + 1, Len(l)), k)
Dropped(e) == IF "out" \in DOMAIN e THEN [e EXCEPT !.out = ""] ELSE e
Objectless(e) == e.op \notin {"zk.ver", "zk.rec", "zk.mod", "zk.build", "ro.new", "ro.add", "ro.out", "note"}
                 \* the driver gives equal arguments as one object, so calls that write to an operand are out
                 /\ ("alias" \notin DOMAIN e \/ e.alias = "new") /\ ("self" \notin DOMAIN e \/ e.self = FALSE)
Sample(l, k) == IF Len(l) <= k THEN l ELSE [i \in 1..k |-> l[1 + ((i - 1) * Len(l)) \div k + RInt("par" \o ToString(i), Len(l) \div k)]]
Grouped(out) == LET RECURSIVE all(_)  all(i) == IF i > Len(out) THEN << >> ELSE out[i].ev \o all(i + 1)
                    g == Chunk(Sample(SelectSeq(all(1), Objectless), Times(96, 800)), 8) IN
  [i \in 1..Len(g) |-> Scen("par-" \o IOEnv.FAM \o "-" \o ToString(i), << [op |-> "par", reps |-> 2, steps |-> [j \in 1..Len(g[i]) |-> Dropped(g[i][j])]] >>)]
Write1(out) == /\ ndJsonSerialize(IOEnv.OUT, out)
              /\ PrintT(<<"GENERATED", Len(out)>>)
Write(out) == Write1(IF "PAR" \in DOMAIN IOEnv /\ IOEnv.PAR = "1" THEN Grouped(out) ELSE out)
=============================================================================
