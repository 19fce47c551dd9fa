----------------------------- MODULE TraceDense -----------------------------
(* Interpolants of recorded integrations against Dense.tla.  Deviations are powers of two of the tolerance of the step
   (atol + rtol |y|), -200 when within rounding.
     sol   an accepted step whose interpolant was requested `n` times (n >= 1):
           rng   t_min, t_max, t_old, t are those of the step
           e0, e1  value at the start / end against the solution (the end as it stands after the request)
           v     jump of the value to the previous interpolant (if adjacent), s  jump of h * slope
           s0, s1  h * (slope - right-hand side) at start / end
           forms scalar, array, unordered and list arguments differ;  shape of the result wrong
           again a second request gives other values;  y  the request changed the solution
           fro   values at the end of the integration differ from those at the request (not bit-identical)
           mid   deviation of the interpolant inside the step from a reference solution started at the step (coarse)
     ivp   solve_ivp: exc, same (the steps are those of the stepped solver), te (values at t_eval against the dense
           output), br (the solution at the steps), jump (values on both sides of every step), lim (end points),
           ev (events: order, values on the solution, residual), teq (t_eval gives exactly the requested times)
   cfg: fam; slope: interpolant documented with the slopes of the right-hand side; c1; rep: replaces the end         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
If(b, s) == IF b THEN {s} ELSE {}
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Lim == -12

Start(c) == [i |-> -1]

SolViol(c, s, e) ==
    If(e.rng, "range") \cup If(e.e0 > Lim, "ends.start") \cup If(e.e1 > Lim, "ends.end")
    \cup If(s.i = e.i - 1 /\ e.v > Lim, "join.value") \cup If(c.c1 /\ s.i = e.i - 1 /\ e.s > c.ls, "join.slope")
    \cup If(c.slope /\ e.s0 > c.ls, "slope.start") \cup If(c.slope /\ e.s1 > c.ls, "slope.end")
    \cup If(e.forms > Lim, "forms.value") \cup If(e.shape, "forms.shape")
    \cup If(e.again > Lim, "again") \cup If(e.y /\ ~c.rep, "observer.solution")
    \cup If(e.fro, "frozen")
    \cup If(e.exc, "raised")

IvpViol(c, e) ==
    If(e.exc, "ivp.raised") \cup If(~e.exc /\ e.same, "ivp.steps") \cup If(~e.exc /\ e.te > Lim, "ivp.teval")
    \cup If(~e.exc /\ e.teq, "ivp.times")
    \cup If(~e.exc /\ (e.br > Lim), "ivp.ends") \cup If(~e.exc /\ e.jump > Lim + 6, "ivp.jump")
    \cup If(~e.exc /\ e.ev, "ivp.events")

Viol(c, s, e) == IF e.k = "sol" THEN SolViol(c, s, e) ELSE IvpViol(c, e)
Step(c, s, e) == IF e.k = "sol" THEN [i |-> e.i] ELSE s
Tags(c, s, e) == IF e.k = "sol" THEN {c.tag} \cup If(s.i = e.i - 1, c.tag \o ".joined") \cup If(e.n > 1, "twice") \cup If(e.back, "backward")
                 ELSE {"ivp"} \cup If(e.nev > 0, "ivp.events") \cup If(e.back, "ivp.backward") \cup If(e.nt > 0, "ivp.teval")

T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
