---------------------------- MODULE StepControl ----------------------------
(* Trace specification of the step loop of the explicit embedded methods: every recorded attempt must be one the
   controller of Controller.tla allows, with the decision its error demands, starting from the state and derivative of
   the last accepted point.  Events (one per attempted step):
     a    attempt: first (of its step), kind full/pre (cut after the preliminary estimate), h, d (remaining interval),
          mn (minimum step), e (error), pre (preliminary estimate), nan, out acc/rej, hr (h / previous accepted h),
          dev, yd, k0 (deviation of stage arguments, solution, reused derivative; powers of two of the rounding unit)
     fail the step failed;   bad  the calls do not form attempts                                                   *)
EXTENDS Controller, TLC, Json, IOUtils

If(b, s) == IF b THEN {s} ELSE {}
Tl == 8                               \* tolerance on logarithms (0.03 %)
DevMax == 7                           \* stage arguments agree to 128 rounding units
K0Max == 20

VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Pm(c) == [fam |-> c.fam, q1 |-> c.q1, k1 |-> c.k1, k2 |-> c.k2, al |-> c.al, sf |-> c.sf, mx |-> c.mx,
          tiny |-> c.tiny]
AnyB(o) == {[std |-> s, red |-> r, h |-> o] : s \in BOOLEAN, r \in BOOLEAN}

Start(c) == [B |-> {[std |-> TRUE, red |-> FALSE, h |-> IF c.h0 = INF THEN <<-INF, INF>> ELSE Iv(c.h0)]},
             eo |-> <<0, 0>>, rej |-> FALSE, nan |-> FALSE, free |-> c.h0 = INF]

(* the beliefs about this attempt before looking at its size *)
Cand(c, s, e) ==
    IF e.first
    THEN IF s.free /\ \A b \in s.B : b.h[1] = -INF
         THEN {[std |-> TRUE, red |-> FALSE, h |-> e.h]}
         ELSE UNION {Reassessed(Pm(c), b, e.mn, c.mxs, e.d, Tl) : b \in s.B}
    ELSE s.B
Obs(c, s, e) == Matches(Cand(c, s, e), e.h, Tl)
Bel(c, s, e) == LET M == Obs(c, s, e) IN IF M = {} THEN AnyB(e.h) ELSE Narrow(M, e.h)

PreHit(c, e) == c.pre /\ ~e.prenan /\ e.pre[1] > 0          \* certainly above one
PreMay(c, e) == c.pre /\ ~e.prenan /\ e.pre[2] >= 0

Viol(c, s, e) ==
    CASE e.k = "bad" -> {"schedule"}
      [] e.k = "fail" ->
           If(~e.msg, "fail.msg")
           \cup If(e.over /\ ~s.nan, "fail.over")
           \cup If(s.nan /\ ~e.over, "fail.nan")
           \cup If(e.small /\ ~s.nan /\ \A b \in (IF e.first THEN UNION {ClipBranches(b, e.mn, c.mxs, Tl) : b \in s.B}
                                                  ELSE s.B) : b.h[1] > e.mn[2] + Tl, "fail.small")
           \cup If(~e.small /\ ~e.over, "fail.other")
      [] e.k = "a" ->
           If(s.nan, "retry.nan")
           \cup If(Obs(c, s, e) = {}, IF e.first THEN "size.next" ELSE "size.retry")
           \cup If(~e.first /\ ~s.rej, "retry.first")
           \cup If(e.h[1] > e.d + Tl, "size.bound")
           \cup If(e.h[1] > c.mxs + 2 /\ e.d # e.h[1], "size.max")
           \cup If(e.h[2] < e.mn[1] - Tl /\ e.d > e.h[2] + Tl, "size.min")
           \cup If(e.out = "acc" /\ (e.nan \/ e.e[1] > 0), "accept")
           \cup If(e.out = "acc" /\ PreHit(c, e), "accept.pre")
           \cup If(e.out = "rej" /\ e.kind = "full" /\ ~e.nan /\ e.e[2] < 0, "reject")
           \cup If(e.out = "rej" /\ e.kind = "full" /\ PreHit(c, e), "reject.pre")
           \cup If(e.kind = "pre" /\ ~PreMay(c, e), "reject.pre")
           \cup If(e.dev > DevMax, IF e.first THEN "stage" ELSE "stage.retry")
           \cup If(e.yd > DevMax, "solution")
           \cup If(e.k0 > K0Max, "derivative")

Err(e) == IF e.kind = "pre" THEN e.pre ELSE e.e

Step(c, s, e) ==
    CASE e.k = "bad"  -> [s EXCEPT !.B = AnyB(<<-INF, INF>>), !.free = FALSE, !.rej = FALSE, !.nan = FALSE]
      [] e.k = "fail" -> s
      [] e.k = "a" /\ e.out = "rej" ->
           [s EXCEPT !.B = UNION {Rejected(Pm(c), b, e.h, IF PreMay(c, e) /\ e.kind = "pre" THEN e.pre ELSE e.e)
                                  : b \in Bel(c, s, e)},
                     !.rej = TRUE, !.nan = e.nan /\ e.kind = "full", !.free = FALSE]
      [] e.k = "a" /\ e.out = "acc" ->
           [s EXCEPT !.B = UNION {Accepted(Pm(c), b, e.h, e.e, s.eo, e.hr, ~e.first) : b \in Bel(c, s, e)},
                     !.eo = e.e, !.rej = FALSE, !.nan = FALSE, !.free = FALSE]

Tags(c, s, e) ==
    IF e.k # "a" THEN {IF e.k = "fail" THEN (IF e.small THEN "fail.small" ELSE "fail.over") ELSE "bad"}
    ELSE LET Bs == Bel(c, s, e) IN
         If(e.out = "acc" /\ e.e[1] >= c.tiny /\ \A b \in Bs : b.std, "acc.first")
         \cup If(e.out = "acc" /\ e.e[1] >= c.tiny /\ \A b \in Bs : ~b.std, "acc.second")
         \cup If(e.out = "acc" /\ e.e[2] < c.tiny, "acc.tiny")
         \cup If(e.out = "acc" /\ ~e.first, "acc.afterrej")
         \cup If(e.out = "rej" /\ e.kind = "full" /\ ~e.nan, "rej.full")
         \cup If(e.out = "rej" /\ e.kind = "full" /\ ~e.nan /\ First(Pm(c), e.e)[2] < MinF, "rej.minfactor")
         \cup If(e.kind = "pre", "rej.pre")
         \cup If(e.nan, "rej.nan")
         \cup If(~e.first /\ s.rej /\ e.out = "rej", "rej.again")
         \cup If(e.first /\ e.h[1] > c.mxs - Tl, "at.max")
         \cup If(e.first /\ e.d > e.h[2] + U - 4 /\ e.d < e.h[1] + U + 4 /\ e.d > e.h[2], "lookahead")
         \cup If(e.first /\ e.d <= e.h[2] /\ e.d >= e.h[1], "last")
         \cup If(\E b \in Bs : b.red /\ \A b2 \in Bs : b2.red, "reduced")
         \cup If(\A b \in Bs : ~b.red, "unreduced")

T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
