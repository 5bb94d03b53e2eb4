------------------------------- MODULE Replay -------------------------------
(* Binds a specification to recorded histories of the implementation.
   A history is a record [id, cfg, ev], ev a sequence of [op, a, r, c] with
   the operation, its arguments, the observed result and the observed
   projection of the state.  InitOf(cfg) is the set of initial abstract states,
   Outcomes(st, op, a) the set of [st, r, c] the specification allows.  Every
   abstract state consistent with what was observed so far is kept, so a
   history is accepted exactly when some behaviour of the specification
   explains the whole of it.  An outcome with a field `any' says that the
   specification promises nothing about that message (a precondition of it
   does not hold): the history is followed up to there and no further. *)
EXTENDS Integers, Sequences, TLC

CONSTANT Traces, InitOf(_), Outcomes(_, _, _)

VARIABLES tid, l, sts

rvars == <<tid, l, sts>>

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ sts = InitOf(Traces[tid].cfg)

TraceNext ==
  /\ l >= 1
  /\ UNCHANGED tid
  /\ IF l > Len(Traces[tid].ev)
     THEN /\ PrintT("ACCEPT " \o ToString(tid))
          /\ l' = 0
          /\ sts' = {}
     ELSE LET e   == Traces[tid].ev[l]
              all == UNION { Outcomes(s, e.op, e.a) : s \in sts }
              free == \E o \in all : "any" \in DOMAIN o
              ok  == { o \in all : o.r = e.r /\ o.c = e.c }
          IN IF free
             THEN /\ PrintT("ACCEPT " \o ToString(tid))
                  /\ l' = 0
                  /\ sts' = {}
             ELSE IF ok # {}
             THEN /\ l' = l + 1
                  /\ sts' = { o.st : o \in ok }
             ELSE /\ PrintT("REJECT " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString({ [r |-> o.r, c |-> o.c] : o \in all }))
                  /\ l' = 0
                  /\ sts' = {}

TraceSpec == TraceInit /\ [][TraceNext]_rvars
=============================================================================
