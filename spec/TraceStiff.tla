------------------------------ MODULE TraceStiff ------------------------------
(* Trace specification of stiffness detection: a run with detection beside the same run without it.
   cfg   M = max(1, nfev_stiff_detect / stages), 0: off or not available;  rkn;  lb limit of |z| (rkn: lbr, lbi), tan,
         all as logarithms
   step  rej rejections;  same: state, time and error free of any influence;  x products (extra calls of fun), xt at the new
         point;  said the warning;  rt |last step / average|, cost remaining work / budget (logarithm intervals);  zero
         the state vanishes;  v deviation of the first perturbation's size, it: per product [real, pair, small, large] each
         0 no, 1 yes, 2 too close to call and d (deviation of the iterate from the previous product),
         rr, rp: the roots found as [left, near2 : 0/1/2, ax, rho, re, im logarithm intervals]
         tru: the warning is contradicted by the eigenvalues of the exact Jacobian
   need  end of a run of a problem whose steps are known to be stability limited: warned
   free  ... of a problem that is not stiff: warned *)
EXTENDS Stiffness, TLC, Json, IOUtils
If(p, s) == IF p THEN {s} ELSE {}
Tl == 32
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Start(c) == [b |-> BookStart, ok |-> TRUE]

B == {TRUE, FALSE}
May(v) == IF v = 2 THEN B ELSE {v = 1}
Lt(i, x) == (IF i[1] < x + Tl THEN {TRUE} ELSE {}) \cup (IF i[2] > x - Tl THEN {FALSE} ELSE {})
Gt(i, x) == (IF i[2] > x - Tl THEN {TRUE} ELSE {}) \cup (IF i[1] < x + Tl THEN {FALSE} ELSE {})
Outs(c, r) == IF c.rkn THEN {x \/ y : x \in Gt(r.re, c.lbr), y \in Gt(r.im, c.lbi)} ELSE Gt(r.rho, c.lb)
Roots(c, r) == {[left |-> a, near2 |-> b, axis |-> d, out |-> o] : a \in May(r.left), b \in May(r.near2), d \in Gt(r.ax, c.tan), o \in Outs(c, r)}

(* the endings (set of warnings) possible after product n of the observed iteration; {} if it must go on *)
Ends(c, e, n, lots) ==
    LET i == e.it[n] IN
    (IF TestsSmall(n) /\ i.small # 0 THEN {Warns("not", "none", lots)} ELSE {})
    \cup (IF TestsLarge(n) /\ i.large # 0 THEN {Warns("unsure", "none", lots)} ELSE {})
    \cup (IF TestsReal(n) /\ i.real # 0 THEN {Warns(Verdict(r), "real", lots) : r \in Roots(c, e.rr)} ELSE {})
    \cup (IF TestsPair(n) /\ i.pair # 0 THEN UNION {{Warns(Verdict(r), p, lots) : r \in Roots(c, e.rp)} : p \in {q \in {"real", "pair"} : (q = "real") \in May(e.rp.isreal)}} ELSE {})
    \cup (IF Last(n) /\ i.real # 1 /\ i.pair # 1 THEN {Warns("unsure", "none", lots)} ELSE {})
GoesOn(e, n) == LET i == e.it[n] IN
    ~Last(n) /\ ~(TestsSmall(n) /\ i.small = 1) /\ ~(TestsLarge(n) /\ i.large = 1) /\ ~(TestsReal(n) /\ i.real = 1) /\ ~(TestsPair(n) /\ i.pair = 1)

Viol(c, s, e) ==
    IF ~s.ok THEN {} ELSE
    CASE e.k = "need" -> If(~e.warned, "stiff.silent")
      [] e.k = "free" -> If(e.warned, "stiff.false.alarm")
      [] e.k = "step" ->
        LET oc == Occasion(s.b, e.rej, c.M)
            lots == Lotsfl(s.b, e.rej)
            far == TRUE \in Gt(e.rt, c.five) \cup Lt(e.rt, -c.five)
            near == FALSE \in Gt(e.rt, c.five) /\ FALSE \in Lt(e.rt, -c.five)
            cheap == FALSE \in Gt(e.cost, 0)
            dear == TRUE \in Gt(e.cost, 0)
        IN  If(~e.same, "stiff.active")
            \cup If(~oc /\ e.x # 0, "stiff.uninvited")
            \cup If(~oc /\ e.said # "none", "stiff.warn.uninvited")
            \cup If(oc /\ e.x = 0 /\ ~far /\ ~cheap /\ ~e.zero, "stiff.missed")
            \cup If(oc /\ e.x = 0 /\ e.said # "none" /\ ~(e.zero /\ e.said = Warns("unsure", "none", lots)), "stiff.warn.unfounded")
            \cup (IF oc /\ e.x > 0 THEN
                    If(~near \/ ~dear, "stiff.needless") \cup If(~e.xt, "stiff.point") \cup If(e.x > 3*MaxTry, "stiff.work")
                    \cup If(e.v > -10, "stiff.perturb")
                    \cup (IF e.x <= 3*MaxTry /\ e.known
                          THEN If(\E n \in 1 .. e.x : n > 1 /\ e.it[n].d > -8, "stiff.iterate")
                               \cup If(\E n \in 1 .. e.x - 1 : ~GoesOn(e, n), "stiff.late")
                               \cup If(Ends(c, e, e.x, lots) = {}, "stiff.early")
                               \cup If(Ends(c, e, e.x, lots) # {} /\ e.said \notin Ends(c, e, e.x, lots), "stiff.verdict")
                          ELSE {})
                    \cup If(e.tru, "stiff.false")
                  ELSE {})

Step(c, s, e) == IF e.k # "step" \/ Viol(c, s, e) # {} THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.b = Booked(@, e.rej)]

Tags(c, s, e) == IF e.k # "step" \/ ~s.ok THEN {} ELSE
    LET oc == Occasion(s.b, e.rej, c.M) IN
    If(c.M = 0, "off") \cup If(oc /\ e.x = 0, "skipped") \cup If(oc /\ Lotsfl(s.b, e.rej), "lots")
    \cup If(oc /\ e.x > 0, IF c.rkn THEN "assess.rkn" ELSE "assess.rk") \cup If(e.x = 24, "notconverged") \cup If(e.x = 1, "one")
    \cup If(e.said # "none", "said." \o e.said) \cup If(c.cplx /\ e.x > 1, "complex") \cup If(e.said # "none" /\ c.rkn, "rkn.said")
    \cup If(e.x > 3, "tries") \cup If(oc /\ Lotsfl(s.b, e.rej) /\ e.x = 24, "notconverged.lots")
T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
