---------------------------- MODULE TraceSens ----------------------------
(* A recorded call of a sensitivity function.  cfg: fn, w (the flaw of the arguments), given (the solution was supplied),
   seen (the solves are recorded), inject ("none", "fw", "bw": this solve is made to fail, if it has enough steps;
                "blowup": the problem has a pole inside the interval); a (per state), aa, aq (adjoint, quadrature), r: the tolerances
                asked for; lp: log |p|, 0 for p = 0
     solve    dir ("fw", "bw"; "other" for neither), ok, a (absolute tolerances the solver got, logs), r (relative one)
     raised   exc
     result   es  error of the sensitivities, in tolerances (power of two)
              ey, ef error of the end state and of the returned value of the function
              eh  error of the outputs along the way (sol.y, sol.sol), -200 if there are none
              shape  all outputs have their documented shapes                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
If(b, x) == IF b THEN {x} ELSE {}
VARIABLES tr, l, st, cv
P == 3
Ny == 1
N == 1
S == INSTANCE Sensitivity
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Tol == 8
Start(c) == [call |-> IF S!Refused(c.fn, c.w) THEN "refused" ELSE "solving", done |-> 0, failed |-> FALSE, over |-> FALSE]
Want(c) == S!Solves(c.fn, c.given)
(* the tolerances of a solve: states, then per parameter the states again, scaled by the parameter; or adjoints, integrals and
   the integral of the function itself                                                                                         *)
Tols(c, d) == IF d = "bw" THEN c.aa \o c.aq \o (IF c.fn = "int" THEN <<CHOOSE x \in {c.aq[i] : i \in 1 .. c.np} : \A i \in 1 .. c.np : x <= c.aq[i]>> ELSE <<>>)
              ELSE IF c.fn = "forward" THEN [i \in 1 .. c.ny*(c.np + 1) |-> c.a[((i - 1) % c.ny) + 1] - (IF i <= c.ny THEN 0 ELSE c.lp[(i - 1) \div c.ny])]
              ELSE c.a
Near(a, b) == a - b <= 2 /\ b - a <= 2
Like(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Near(a[i], b[i])
Viol(c, s, e) ==
    CASE e.k = "solve" -> If(s.call = "refused", "sens.not-refused")
                          \cup If(s.call # "refused" /\ (s.failed \/ s.done >= Len(Want(c)) \/ e.dir # Want(c)[s.done + 1]), "sens.order")
                          \cup If(s.call # "refused" /\ e.dir # "other" /\ ~Like(e.a, Tols(c, e.dir)), "sens.atol")
                          \cup If(s.call # "refused" /\ ~Near(e.r, c.r), "sens.rtol")
      [] e.k = "raised" -> If(s.call # "refused" /\ ~s.failed /\ c.inject # "blowup", "sens.raised")
                           \cup If(s.failed /\ e.exc # "RuntimeError", "sens.exception")
                           \cup If(s.call # "refused" /\ ~s.failed /\ c.inject = "blowup" /\ e.exc \notin {"RuntimeError", "ValueError", "LinAlgError"}, "sens.exception")
                           \cup If(s.call = "refused" /\ e.exc \notin {"ValueError", "TypeError", "AssertionError"}, "sens.exception")
      [] e.k = "result" -> If(s.call = "refused", "sens.not-refused")
                           \cup If(s.failed \/ c.inject = "blowup", "sens.failure-returned")
                           \cup If(s.call # "refused" /\ c.seen /\ ~s.failed /\ s.done # Len(Want(c)), "sens.order")
                           \cup If(c.inject # "blowup" /\ ~s.failed /\ s.call # "refused",
                                   If(e.es > Tol, "sens.value") \cup If(e.ey > Tol, "sens.state") \cup If(e.ef > Tol, "sens.function")
                                   \cup If(e.eh > Tol, "sens.history") \cup If(~e.shape, "sens.shape"))
Step(c, s, e) == IF e.k = "solve" THEN [s EXCEPT !.done = @ + 1, !.failed = @ \/ ~e.ok] ELSE s
Tags(c, s, e) == IF e.k = "solve" THEN {"atol." \o c.fn \o "." \o c.form} ELSE IF e.k = "result" THEN {"result." \o c.fn, "method." \o c.name} \cup If(c.given, "given." \o c.fn) \cup If(c.back, "back." \o c.fn)
                                        \cup If(c.np = 1, "np1." \o c.fn) \cup If(c.ny = 1, "ny1." \o c.fn) \cup If(c.pz, "zero." \o c.fn)
                                        \cup If(e.eh > -200, "history." \o c.fn)
                 ELSE IF e.k = "raised" THEN (IF s.call = "refused" THEN {"refused." \o c.fn \o "." \o c.w} ELSE {"failed." \o c.fn \o "." \o c.inject}) ELSE {}
T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
