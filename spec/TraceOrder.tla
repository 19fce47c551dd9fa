---------------------------- MODULE TraceOrder ----------------------------
(* cfg: name, it (interpolant)
     ladder  e, d: errors of single steps and of the dense output inside them, the largest over some problems of a kind
     tols    e, d: errors of whole integrations, at the end and of the dense output, and t: the tolerances (logs)
     none    no problem with a bounded solution was found
     failed  a run that was not completed                                                                            *)
EXTENDS Order, FiniteSets, TLC, Json, IOUtils
If(b, x) == IF b THEN {x} ELSE {}
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Far == 10*Oct
Start(c) == 0
Viol(c, s, e) ==
    CASE e.k = "ladder" -> If(~Order(e.e, StepQ(c.name)), "order.step") \cup If(~Order(e.d, DenseQ(c.name, c.it)), "order.dense")
      [] e.k = "tols" -> If(\E i \in DOMAIN e.e : e.e[i] # NONE /\ e.e[i] > e.t[i] + Far, "order.far") \cup If(~Proportional(e.e, e.t, TolQ(c.name)), "order.tolerance")
                         \cup If(\E i \in DOMAIN e.d : e.d[i] # NONE /\ e.d[i] > e.t[i] + Far, "order.densefar")
      [] e.k = "none" -> {}
      [] e.k = "failed" -> {"order.failed"}
Step(c, s, e) == s
Tags(c, s, e) == IF e.k = "ladder" THEN If(Judged(e.e), "step." \o c.name) \cup If(Judged(e.d), "dense." \o c.name \o c.it)
                                        \cup If(Judged(e.e), "kind." \o c.kind)
                 ELSE IF e.k = "tols" THEN {"tols." \o c.name} ELSE {}
T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
