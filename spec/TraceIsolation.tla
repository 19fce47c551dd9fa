--------------------------- MODULE TraceIsolation ---------------------------
(* Replay of the behaviours of Isolation.tla: each slot is a real solver.  cfg holds, per slot, what the same solver
   does when it is alone:  own[i][k+1] fingerprint of time, solution, status and evaluation counts after k steps,
   rej[i][k] rejected attempts of step k (and it, ls: failed Newton iterations, linear solves), den[i][k] fingerprint
   of the interpolant of step k.
     new, step   op, i, h (fingerprint), nfs, nfi, nls (public counters), user (arrays of the user unchanged)
     dense, eval op, i, h                                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
If(b, s) == IF b THEN {s} ELSE {}
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

N(c) == Len(c.own)
Start(c) == [steps |-> [i \in 1 .. N(c) |-> -1], sols |-> [i \in 1 .. N(c) |-> <<>>],
             nfs |-> 0, nfi |-> 0, nls |-> 0, prev |-> 0]

Expect(c, s, e) == CASE e.op = "new" -> c.own[e.i][1]
                     [] e.op = "step" -> c.own[e.i][s.steps[e.i] + 2]
                     [] e.op = "dense" -> c.den[e.i][s.steps[e.i]]
                     [] e.op = "eval" -> c.den[e.i][s.sols[e.i][1]]

(* the counters: reset by a creation (NFI and NLS only by solvers that use them), increased by every step *)
Nfs(c, s, e) == CASE e.op = "new" /\ c.use[e.i] -> 0 [] e.op = "step" -> s.nfs + c.rej[e.i][s.steps[e.i] + 1] [] OTHER -> s.nfs
Nfi(c, s, e) == CASE e.op = "new" /\ c.imp[e.i] -> c.start[e.i][2] [] e.op = "step" -> s.nfi + c.it[e.i][s.steps[e.i] + 1] [] OTHER -> s.nfi
Nls(c, s, e) == CASE e.op = "new" /\ c.imp[e.i] -> c.start[e.i][3] [] e.op = "step" -> s.nls + c.ls[e.i][s.steps[e.i] + 1] [] OTHER -> s.nls

Viol(c, s, e) ==
    If(e.h # Expect(c, s, e),
       CASE e.op = "new" -> "alone.start" [] e.op = "step" -> "alone.step" [] e.op = "dense" -> "alone.dense"
         [] e.op = "eval" -> "alone.frozen")
    \cup If(~e.user, "user.modified")
    \cup If(e.nfs # Nfs(c, s, e), IF e.op = "new" THEN "count.reset" ELSE "count.nfs")
    \cup If(e.nfi # Nfi(c, s, e), IF e.op = "new" THEN "count.reseti" ELSE "count.nfi")
    \cup If(e.nls # Nls(c, s, e), IF e.op = "new" THEN "count.resetl" ELSE "count.nls")

Step(c, s, e) ==
    [steps |-> CASE e.op = "new" -> [s.steps EXCEPT ![e.i] = 0] [] e.op = "step" -> [s.steps EXCEPT ![e.i] = @ + 1]
                 [] OTHER -> s.steps,
     sols |-> CASE e.op = "new" -> [s.sols EXCEPT ![e.i] = <<>>]
                [] e.op = "dense" -> [s.sols EXCEPT ![e.i] = Append(@, s.steps[e.i])] [] OTHER -> s.sols,
     nfs |-> e.nfs, nfi |-> e.nfi, nls |-> e.nls, prev |-> e.i]

Tags(c, s, e) == {e.op} \cup If(s.prev # 0 /\ s.prev # e.i, "switch." \o e.op)
                 \cup If(e.op = "new" /\ s.steps[e.i] > 0, "again")
                 \cup If(e.op = "step" /\ c.rej[e.i][s.steps[e.i] + 1] > 0, "rejected")
                 \cup If(e.op = "new" /\ s.nfs > 0, "reset.nonzero")
                 \cup If(Cardinality({c.names[i] : i \in 1 .. N(c)}) = 1, "sameclass")

T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
