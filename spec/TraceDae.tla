----------------------------- MODULE TraceDae -----------------------------
(* A recorded run of an ESDIRK method on M y' = f(t, y).
   cfg: name, p (the problem in the terms of Dae.tla), lin (the right-hand side is affine), stable limits
   init   exc (type raised or ""), warned; and for accepted problems, as powers of two:
          dm   change of M y in units of rounding;  r0  distance to the consistent values, in tolerances;
          sl   deviation of the slope that the first stage shows from the solution of (M y' = f, d/dt g = 0), relative
   step   r   Newton displacement of the algebraic equations at the output, in tolerances;  rd  the same inside the step;
          er, ed   global error of the output and inside the step, in tolerances (-200: not compared)
   end    status ("finished", "failed", "running", "raised")                                                         *)
EXTENDS Dae, TLC, Json, IOUtils
If(b, x) == IF b THEN {x} ELSE {}
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == Begin(c.p)
Dm == 8
R0 == 1
Sl == -12
R == 4
Rd == 8
Er == 9
Ed == 11
Viol(c, s, e) ==
    CASE e.k = "init" ->
           IF Verdict(c.p) # "accepted"
           THEN If(e.exc = "", "dae.accepted") \cup If(e.exc \notin {"", Verdict(c.p)}, "dae.exception")
           ELSE If(e.exc # "", "dae.refused")
                \cup (IF e.exc # "" THEN {} ELSE
                      If(e.warned # Warns(c.p), "dae.warning") \cup If(e.dm > Dm, "dae.differential")
                      \cup If(e.r0 > R0, "dae.consistent") \cup If(e.sl > Sl, "dae.slope"))
      [] e.k = "step" -> If(e.r > R, "dae.algebraic") \cup If(e.rd > Rd, "dae.algebraicdense")
                         \cup If(e.er > Er, "dae.error") \cup If(e.ed > Ed, "dae.errordense")
      [] e.k = "end" -> If(e.status \in {"failed", "raised"}, "dae.end")
(* the abstract state follows Dae!Succ to its end *)
RECURSIVE Run(_, _)
Run(p, s) == IF Succ(p, s) = {} THEN s ELSE Run(p, CHOOSE q \in Succ(p, s) : TRUE)
Step(c, s, e) == IF e.k = "init" THEN Run(c.p, s) ELSE s
Tags(c, s, e) == IF e.k = "init" THEN {"form." \o c.p.form, "start." \o c.p.start, "units." \o c.p.units, "nae" \o ToString(c.p.nae),
                                       "index" \o ToString(c.p.index), c.name}
                                      \cup If(e.exc = "" /\ e.sl > -200, "slope") \cup If(e.exc # "", "refused")
                 ELSE If(e.k = "step" /\ e.er > -200, "compared") \cup If(e.k = "step" /\ e.rd > -200, "dense")
T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
