--------------------------- MODULE TraceNystrom ---------------------------
(* A recorded run of a Nystrom method.  cfg: name, p (in the terms of Nystrom.tla)
     init  exc (type raised, or ""), calls (before the choice of the first step, for accepted problems; -1: not known)
     step  er, ed  error of the output and of the dense output against the equivalent first order system, in tolerances
                   (power of two)
     end   status                                                                                                     *)
EXTENDS Nystrom, TLC, Json, IOUtils
If(b, x) == IF b THEN {x} ELSE {}
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Er == 8
Ed == 9
Start(c) == 0
Viol(c, s, e) ==
    CASE e.k = "init" -> IF Refused(c.name, c.p)
                         THEN If(e.exc = "", "nystrom.accepted") \cup If(e.exc \notin {"", "AssertionError"}, "nystrom.exception")
                         ELSE If(e.exc # "", "nystrom.refused")
      [] e.k = "step" -> If(e.er > Er, "nystrom.error") \cup If(e.ed > Ed, "nystrom.dense")
      [] e.k = "end" -> If(e.status \in {"failed", "raised"}, "nystrom.end")
Step(c, s, e) == s
Tags(c, s, e) == IF e.k = "init" THEN {c.name \o ".first." \o c.p.first, "accel." \o c.p.accel, "start." \o c.p.start, "form." \o c.p.form}
                                      \cup If(c.p.odd, "odd") \cup If(e.exc = "", c.name \o ".accepted") \cup If(e.exc # "", c.name \o ".refused")
                 ELSE If(e.k = "step" /\ e.er > -200, "compared")
T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
