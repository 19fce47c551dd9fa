----------------------------- MODULE TraceLife -----------------------------
(* Trace specification of the life of an integration (the observable actions of StepLife.tla), for every solver.
   Quantities are signs and multiples of the rounding unit of the interval.
     new    constructed: out, outj (evaluations outside the interval), imx (start-up beyond interval or max_step)
     step   a call of step(): mv (sign of the time moved), left (sign of the remaining interval), status, msg, same
            (state unchanged), finite, lmx/rmx (length / reach of the evaluations beyond max_step), lfs/rfs (beyond
            first_step), out, outj, behind, ahead (evaluations before the start / beyond the end of the step), dout (of the dense output
            outside the step), nf (number of non-finite values met)
     end    two more calls of step(): refused;   hang, exc, raised: no regular ending                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
If(b, s) == IF b THEN {s} ELSE {}
Tol == 2
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Start(c) == [status |-> "running", left |-> 1, n |-> 0]

Viol(c, s, e) ==
    CASE e.k = "new" -> If(e.out > Tol, "inside.init") \cup If(e.outj > Tol, "inside.jac")
                        \cup If(e.imx > Tol, "inside.start")
      [] e.k = "raised" -> {"raised"}
      [] e.k = "hang" -> If(~e.budget, "ends.hang")
      [] e.k = "exc" -> If(~e.lin, "ends.exc")
      [] e.k = "end" -> If(~e.refused, "life.refuse")
      [] e.k = "step" ->
           If(s.status # "running", "life.zombie")
           \cup If(e.status \notin {"running", "finished", "failed"}, "life.status")
           \cup IF e.status = "failed"
                THEN If(~e.same, "life.failmoved") \cup If(~e.msg, "life.nomsg")
                     \cup If(c.solvable, "life.needless")
                ELSE If(e.mv # 1, "life.forward")
                     \cup If(e.left \notin {0, 1}, "life.past")
                     \cup If((e.status = "finished") # (e.left = 0), "life.landed")
                     \cup If(e.msg, "life.msg")
                     \cup If(~e.finite, "ends.notfinite")
                     \cup If(c.nonfin /\ e.status = "finished", "ends.nonfin")
           \cup If(e.lmx > Tol, "limit.max") \cup If(e.rmx > Tol, "limit.maxtry")
           \cup If(e.lfs > Tol, "limit.first") \cup If(e.rfs > Tol, "limit.firsttry")
           \cup If(e.out > Tol, "inside.fun") \cup If(e.outj > Tol, "inside.jac")
           \cup If(e.behind > Tol, "inside.behind") \cup If(e.dout > Tol, "inside.dense")
           \cup If(e.ahead > Tol, "inside.ahead")

Step(c, s, e) ==
    IF e.k = "step" THEN [status |-> e.status, left |-> e.left, n |-> s.n + 1] ELSE s

Tags(c, s, e) ==
    IF e.k = "step"
    THEN {e.status} \cup If(e.status = "finished" /\ s.n = 0, "onestep") \cup If(e.nf > 0 /\ e.status # "failed", "survived")
         \cup If(e.nf > 0 /\ e.status = "failed", "nf.failed") \cup If(e.rej, "rejected")
    ELSE {e.k}

T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
