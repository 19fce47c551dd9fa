------------------------------ MODULE TraceValidate ------------------------------
(* row   a constructor call: opts (sequence of <<option, token>>), exc ("" or the type raised), rt, at (tolerances found),
         warned, step: "ok", "failed", "raised", "skip"; slow: the first step was longer than allowed *)
EXTENDS Validate, TLC, Json, IOUtils
If(p, s) == IF p THEN {s} ELSE {}
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == 0
Cf(e) == [o \in {e.opts[i][1] : i \in 1 .. Len(e.opts)} |-> e.opts[CHOOSE i \in 1 .. Len(e.opts) : e.opts[i][1] = o][2]]
BadOnes(c, e) == {e.opts[i][1] \o "." \o e.opts[i][2] : i \in {i \in 1 .. Len(e.opts) : e.opts[i][2] \in Bad(c.name, e.opts[i][1])}}
Viol(c, s, e) ==
    LET cf == Cf(e) IN
    IF Refused(c.name, cf)
    THEN If(e.exc = "", "valid.accepted") \cup If(e.exc # "" /\ e.exc \notin {"ValueError", "TypeError"}, "valid.exception")
    ELSE If(e.exc # "", "valid.refused")
         \cup (IF e.exc # "" THEN {} ELSE
               If(e.rt # Rtol(cf), "valid.rtol") \cup If(e.at # Atol(cf), "valid.atol")
               \cup If(e.warned # Warned(c.name, cf), "valid.warn") \cup If(e.step \notin {"ok", "skip"}, "valid.step") \cup If(e.slow, "valid.limit"))
Step(c, s, e) == s
Tags(c, s, e) == UNION {{o \o "." \o Cf(e)[o]} : o \in DOMAIN Cf(e)} \cup {c.name}
T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
