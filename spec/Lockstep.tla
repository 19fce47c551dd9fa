----------------------------- MODULE Lockstep -----------------------------
(* Two runs of the same mathematical problem under a transformation that must not matter (time mirrored, other units,
   other representation, observed or not, another limit that does not bind): they must go through the same transitions.
   One event per step of the pair:
     step  dt, dy, dd  deviation (power of two) of the time in step lengths, of the solution and of the dense output in
                       tolerances, after mapping the second run back;
           ds          status differs; dn, dj, dl, dr  differences of nfev, njev, nlu and rejected attempts
     end   extra       one run has more steps than the other;  dm: messages/warnings differ
   cfg: tt, ty, td limits of the deviations; cn, cj, cl, cr: whether the counts must agree.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
If(b, s) == IF b THEN {s} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Start(c) == [ok |-> TRUE, n |-> 0]

Bad(c, e) ==
    IF e.k = "step"
    THEN If(e.ds, "lock.status") \cup If(e.dt > c.tt, "lock.time") \cup If(e.dy > c.ty, "lock.solution")
         \cup If(e.dd > c.td, "lock.dense")
         \cup If(c.cn /\ e.dn # 0, "lock.nfev") \cup If(c.cj /\ e.dj # 0, "lock.njev")
         \cup If(c.cl /\ e.dl # 0, "lock.nlu") \cup If(c.cr /\ e.dr # 0, "lock.rejected")
    ELSE If(e.k = "init" /\ e.dx, "lock.raised") \cup If(e.k = "init" /\ c.cn /\ e.dn # 0, "lock.start")
         \cup If(e.k = "end" /\ e.extra, "lock.length") \cup If(e.k = "end" /\ e.dm, "lock.warning")
         \cup If(e.k = "exc", "lock.exception")

(* after the first difference the runs are no longer comparable *)
Viol(c, s, e) == IF s.ok THEN Bad(c, e) ELSE {}
Step(c, s, e) == [ok |-> s.ok /\ Bad(c, e) = {}, n |-> s.n + 1]
Tags(c, s, e) == {c.tag} \cup If(e.k = "step" /\ e.rej, c.tag \o ".rejected") \cup If(e.k = "step" /\ e.fail, c.tag \o ".failed")
                 \cup If(e.k = "step" /\ e.dt = -200 /\ e.dy = -200, c.tag \o ".identical")

T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
