----------------------------- MODULE TraceLang ------------------------------
EXTENDS Lang, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
InitOf(cfg) == { <<cfg>> }
(* The observed log and ending are in A: where the specification promises
   nothing the program must have done everything up to there. *)
Prefix(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
Outcomes(st, op, a) ==
  LET r == RunProgram(st[1])
      ob == Observed(r)
      o == [log |-> [i \in 1..Len(ob.log) |-> ToString(ob.log[i])], end |-> ob.end]
  IN IF r.k \notin {"v", "term"}
     THEN IF PrintT("FREE " \o ToString(Len(o.log))) /\ Prefix(o.log, a[1]) THEN { [st |-> st, r |-> a[1], c |-> a[2]] }
          ELSE { [st |-> st, r |-> o.log \o <<"...">>, c |-> <<o.end>>] }
     ELSE { [st |-> st, r |-> o.log, c |-> <<o.end>>] }
VARIABLES tid, l, sts
INSTANCE Replay
=============================================================================
