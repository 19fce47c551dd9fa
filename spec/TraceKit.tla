------------------------------ MODULE TraceKit ------------------------------
(* Skeleton of every trace specification.  A trace file holds a sequence of traces, each a record
     [cfg |-> constants of the run, ev |-> <<event, event, ...>>].
   The instantiating module supplies the traces (read from the file named by TRACE_FILE) and, for its own abstract
   state st,
     Start(c)        the abstract state before the first event,
     Viol(c, st, e)  the set of names of the clauses event e violates in state st (empty: e is allowed),
     Step(c, st, e)  the abstract state after e (also defined, by resynchronisation, when e is not allowed),
     Tags(c, st, e)  the set of names of the situations event e exercises.
   The behaviour consumes one event per transition; the verdict is total: a violated clause is printed with trace and
   event number, and the rest of the trace is still checked.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Traces, Start(_), Viol(_, _, _), Step(_, _, _), Tags(_, _, _)
VARIABLES tr, l, st, cv

Init == /\ tr \in 1 .. Len(Traces)
        /\ l = 1
        /\ st = Start(Traces[tr].cfg)
        /\ cv = {}

Next == LET T == Traces[tr] IN
        /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               v == Viol(T.cfg, st, e) IN
           /\ IF v = {} THEN TRUE
              ELSE PrintT("BAD " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(v))
           /\ st' = Step(T.cfg, st, e)
           /\ cv' = cv \cup Tags(T.cfg, st, e)
           /\ IF l < Len(T.ev) THEN TRUE ELSE PrintT("COV " \o ToString(tr) \o " " \o ToString(cv'))
        /\ l' = l + 1
        /\ tr' = tr
=============================================================================
