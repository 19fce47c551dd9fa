---------------------------- MODULE TraceAccount ----------------------------
(* Evaluation counts of recorded integrations of every solver against the cost rules of Account.tla.
     init   n calls of the right-hand side, nfev (counter), at0 (calls at the initial time), chk (uncounted checks),
            nj, njev, rej (failure counter), same0 (repeated evaluations of the initial point)
     step   n, dn (calls and counted), at (calls at the start of the step: differences for a Jacobian or spectral radius),
            nj, dj (Jacobian calls and counted), dup (Jacobian evaluations at a point where it was evaluated before), full, pre (attempts found), acc, xtra (evaluations after the accepted
            point), dr (failure counter), nan (the last attempt met a useless value), dense: <<calls, counted>> per interpolant
   cfg: fam, s, p, e (costs), x (cost of an interpolant), stiff (detection on), jac: user / num / none, dim         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
If(b, s) == IF b THEN {s} ELSE {}
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
A == INSTANCE Account WITH MaxEv <- 0, P <- 0, nfev <- 0, nfs <- 0, hist <- 0, att <- 0, status <- 0

Start(c) == [nf |-> 0, failed |-> FALSE]

InitViol(c, e) ==
    If(c.jac # "num" /\ c.fam # "esdirk" /\ e.n # e.nfev + c.chk, "start.nfev")
    (* start-up estimates of the implicit methods are not counted: at most four, and differences at the initial time *)
    \cup If((c.jac = "num" \/ c.fam = "esdirk")
             /\ (e.nfev > e.n \/ e.n - e.nfev > (IF c.jac = "num" THEN e.at0 ELSE 0) + 4), "start.nfev")
    \cup If(c.jac = "user" /\ e.nj # e.njev, "start.njev")
    \cup If(c.jac = "const" /\ e.njev # 0, "start.njev")
    \cup If(e.rej # 0, "nfs.reset")

StepViol(c, s, e) ==
    (* truth *)
    If(e.n - e.at # e.dn, "nfev.true")
    \cup If(c.jac # "num" /\ e.at # 0, "nfev.again")
    \cup If(c.jac = "num" /\ c.fam = "esdirk" /\ (e.at > 0) # (e.dj > 0), "njev.true")
    \cup If(c.jac = "num" /\ c.fam = "esdirk" /\ e.at > (2 * c.dim + 1) * e.dj, "njev.cost")
    \cup If(c.jac = "user" /\ e.nj # e.dj, "njev.true")
    \cup If(c.jac \in {"const", "none"} /\ e.dj # 0, "njev.true")
    (* economy *)
    \cup If(e.dup > 0, "njev.again")
    \cup IF c.fam = "rk"
         THEN If(e.bad, "cost.schedule")
              \cup If(~e.bad /\ e.n # A!StepCost(c, e.full, e.pre, e.acc) + e.xtra, "cost.step")
              \cup If(e.xtra > 0 /\ ~c.stiff, "cost.extra")
              \cup If(~e.bad /\ e.pre > 0 /\ c.p = 0, "cost.pre")
              \cup If(~e.bad /\ ~e.nan /\ e.dr # A!Rejected(e.full, e.pre, e.acc), "nfs.step")
              \cup If(~e.bad /\ e.nan /\ e.dr \notin {e.full + e.pre, e.full + e.pre - 1}, "nfs.step")
         ELSE IF c.fam = "swag"
         THEN If(e.acc /\ e.n > 1 /\ e.dr # e.n - 2, "nfs.step")
              \cup If(~e.acc /\ e.dr \notin {e.n, e.n - 1}, "nfs.step")
         ELSE {}
    \cup UNION {If(d[1] # c.x \/ d[2] # c.x, "dense.cost") : d \in {e.dense[i] : i \in 1 .. Len(e.dense)}}

Viol(c, s, e) == IF e.k = "init" THEN InitViol(c, e) ELSE StepViol(c, s, e)
Step(c, s, e) == s
Tags(c, s, e) ==
    IF e.k = "init" THEN {"init." \o c.jac}
    ELSE {c.fam} \cup If(e.dr > 0, c.fam \o ".rejected") \cup If(e.dense # <<>> /\ c.x > 0, "dense.extra")
         \cup If(Len(e.dense) > 1, "dense.twice") \cup If(c.fam = "rk" /\ e.pre > 0, "pre") \cup If(e.at > 0, "differences")
         \cup If(c.fam = "rk" /\ c.e = 1 /\ e.dr > 0, "nonfsal.rejected") \cup If(e.nan, "nan") \cup If(e.xtra > 0, "stiff.extra")
         \cup If(c.jac = "user" /\ e.dj > 0, "jac")

T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
