----------------------------- MODULE TraceSwag -----------------------------
(* Trace specification of SWAG.  Events, one per attempt:
     a     first, h, d, mn; ord: the orders whose Adams-Bashforth prediction from the recorded history is the state of the
           trial evaluation; S, err, R, nan, inf (see SwagControl); acc; yok: the orders whose corrected value is the accepted
           solution;  k0: the derivative history is that of the accepted points; xtra: evaluations besides the two
     ext   the remaining interval was below the smallest step: extrapolated without evaluation
     fail  the step failed;  bad  the calls do not form attempts                                                     *)
EXTENDS SwagControl, TLC, Json, IOUtils

If(p, s) == IF p THEN {s} ELSE {}
Tl == 8
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Rg(q) == {q[i] : i \in DOMAIN q}

Start(c) == [B |-> {SwagStart(IF c.h0 = INF THEN <<-INF, INF>> ELSE Iv(c.h0))}, n |-> 0, free |-> c.h0 = INF]

(* pairs of belief and limited size *)
Try(c, s, e) ==
    IF ~e.first THEN {[b |-> b, h |-> b.h, kept |-> FALSE, am |-> FALSE] : b \in s.B}
    ELSE IF s.free THEN {[b |-> b, h |-> e.h, kept |-> FALSE, am |-> x] : b \in s.B, x \in {e.h[2] >= c.mxs - Tl}}
    ELSE UNION {{[b |-> b, h |-> x.h, kept |-> x.kept, am |-> x.am] : x \in SwagLimited(b, c.mxs, e.d, Tl)} : b \in s.B}

Fits(e, x) == x.h[1] <= e.h[2] + Tl /\ x.h[2] >= e.h[1] - Tl
SizeFit(c, s, e) == {x \in Try(c, s, e) : Fits(e, x)}
OrdFit(c, s, e) == {x \in SizeFit(c, s, e) : x.b.k \in Rg(e.ord)}
May(e, x) == IF e.acc THEN ~e.nan /\ ~e.inf /\ e.err[x.b.k][1] <= Tl ELSE e.nan \/ e.inf \/ e.err[x.b.k][2] >= -Tl
ErrFit(c, s, e) == {x \in OrdFit(c, s, e) : May(e, x)}
Fit(c, s, e) == {x \in ErrFit(c, s, e) : ~e.acc \/ x.b.k \in Rg(e.yok)}

Viol(c, s, e) ==
    LET sf == IF e.k = "a" THEN SizeFit(c, s, e) ELSE {}
        of == {x \in sf : x.b.k \in Rg(e.ord)}
        ef == {x \in of : May(e, x)}
        ft == {x \in ef : ~e.acc \/ x.b.k \in Rg(e.yok)} IN
    CASE e.k = "bad" -> {"swag.schedule"}
      [] e.k = "ext" -> If(e.d > e.mn[2] + Tl, "swag.extrapolate") \cup If(e.calls # 0, "swag.calls")
      [] e.k = "fail" ->
           If(~e.msg, "swag.fail.msg")
           \cup If(e.small /\ ~s.free /\ \A b \in s.B : b.h[1] > e.mn[2] + Tl /\ (~e.first \/ c.mxs > e.mn[2] + Tl), "swag.fail.small")
           \cup If(~e.small /\ ~e.tight, "swag.fail.other")
      [] e.k = "a" ->
           If(sf = {}, IF e.first THEN "swag.size.next" ELSE "swag.size.retry")
           \cup If(sf # {} /\ of = {}, IF Rg(e.ord) = {} THEN "swag.predict" ELSE "swag.order")
           \cup If(of # {} /\ ef = {}, IF e.acc THEN "swag.accept" ELSE "swag.reject")
           \cup If(ef # {} /\ ft = {}, "swag.correct")
           \cup If(~e.k0, "swag.derivative")
           \cup If(e.xtra # 0, "swag.calls")
           \cup If(e.nfs, "swag.nfs")

All(c) == {[k |-> k, h |-> <<-INF, INF>>, ph |-> p, ns |-> n, kold |-> j, kp |-> q, am |-> FALSE] :
           k \in 1 .. c.kmax, p \in BOOLEAN, n \in 0 .. 1, j \in 1 .. 1, q \in BOOLEAN}

Step(c, s, e) ==
    IF e.k # "a" THEN s
    ELSE LET F == Fit(c, s, e)
             X == IF F # {} THEN F ELSE {[b |-> b, h |-> e.h, kept |-> FALSE, am |-> FALSE] : b \in All(c)}
         IN IF e.acc
            THEN [B |-> UNION {SwagAccepted(x.b, e, e.h, c.kmax, NsOf(x.b, x.kept), x.am, e.mn, Tl) : x \in X}, n |-> 0, free |-> FALSE]
            ELSE [B |-> UNION {SwagFailed(x.b, e, e.h, s.n + 1, Tl) : x \in X}, n |-> s.n + 1, free |-> FALSE]

Tags(c, s, e) ==
    IF e.k # "a" THEN {"swag." \o e.k}
    ELSE LET F == Fit(c, s, e)
             K == {x.b.k : x \in F} IN
         IF Cardinality(K) # 1 THEN {"swag.ambiguous"}
         ELSE LET k == CHOOSE k \in K : TRUE
                  B2 == IF e.acc THEN Step(c, s, e).B ELSE {}
                  N == {y.k - k : y \in B2}
                  x == CHOOSE x \in F : TRUE IN
              {IF k = 1 THEN "swag.k1" ELSE IF k = c.kmax THEN "swag.kmax" ELSE "swag.kmid"}
              \cup If(N = {1}, IF \A y \in F : y.b.ph THEN "swag.raise.phase1" ELSE "swag.raise") \cup If(N = {-1}, "swag.lower") \cup If(N = {0}, "swag.stay")
              \cup If(~e.acc, "swag.failure") \cup If(~e.acc /\ s.n >= 2, "swag.third") \cup If(~e.acc /\ s.n >= 3, "swag.fourth")
              \cup If(e.acc /\ \A y \in B2 : y.kp, "swag.keep") \cup If(e.acc /\ \A y \in B2 : y.h[1] > e.h[2], "swag.double")
              \cup If(e.acc /\ \A y \in B2 : y.h[2] < e.h[1], "swag.reduce")
              \cup If(\A y \in F : y.am, "swag.atmax") \cup If(e.nan, "swag.nan") \cup If(e.inf, "swag.inf")

T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
