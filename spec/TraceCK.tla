------------------------------ MODULE TraceCK ------------------------------
(* Trace specification of CKdisc: every recorded attempt must stop, continue, fall back, be accepted or retried as the
   strategy of CKControl demands for its error estimates, with step sizes that follow.  Events:
     a     attempt: first (of its step), n stages after the first (1, 3, 5), h, d, mn; norms n1 n2 n4 f2 f3 (logs, intervals)
           and x1 x2 x4 y2 y3 (not a number); acc: the step was accepted in this attempt, len: its length as a fraction of
           h ("1", "3/5", "1/5", "?"); dev, yd, k0 as in StepControl; xtra: further calls
     fail  the step failed;  bad  the calls do not form attempts                                                     *)
EXTENDS CKControl, TLC, Json, IOUtils

If(p, s) == IF p THEN {s} ELSE {}
Tl == 8
DevMax == 7
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

AnyCK == [q |-> << <<0, LQmax>>, <<0, LQmax>> >>, w |-> << <<2253, 9584>>, <<2253, 2253>> >>]
Start(c) == [b |-> CKStart, h |-> IF c.h0 = INF THEN <<-INF, INF>> ELSE Iv(c.h0), rej |-> FALSE, nan |-> FALSE,
             free |-> c.h0 = INF]

Sizes(c, s, e) ==
    IF e.first THEN IF s.free THEN {e.h}
                    ELSE {x.h : x \in Reassessed([fam |-> "rk"], [std |-> TRUE, red |-> FALSE, h |-> s.h], e.mn, c.mxs, e.d, Tl)}
    ELSE {s.h}
SizeOk(c, s, e) == \E i \in Sizes(c, s, e) : i[1] <= e.h[2] + Tl /\ i[2] >= e.h[1] - Tl

Outs(s, e) == CKOutcomes(s.b, e, 2)
Seen(e) == IF ~e.acc THEN {"rej", "rough"}
           ELSE CASE e.len = "1" -> {"acc5"} [] e.len = "3/5" -> {"acc3"} [] e.len = "1/5" -> {"acc2"} [] OTHER -> {}
Fit(s, e) == Outs(s, e) \cap Seen(e)

Viol(c, s, e) ==
    CASE e.k = "bad" -> {"ck.schedule"}
      [] e.k = "fail" ->
           If(~e.msg, "ck.fail.msg") \cup If(e.over /\ ~s.nan, "ck.fail.over") \cup If(s.nan /\ ~e.over, "ck.fail.nan")
           \cup If(e.small /\ ~s.nan /\ ~s.free /\ s.h[1] > e.mn[2] + Tl, "ck.fail.small")
           \cup If(~e.small /\ ~e.over, "ck.fail.other")
      [] e.k = "a" ->
           If(s.nan, "ck.retry.nan")
           \cup If(~SizeOk(c, s, e), IF e.first THEN "ck.size.next" ELSE "ck.size.retry")
           \cup If(~e.first /\ ~s.rej, "ck.retry.first")
           \cup If(e.n \notin CKStages(s.b, e, 2), IF e.n = 1 THEN "ck.quit.early" ELSE IF e.n = 3 THEN "ck.quit" ELSE "ck.continue")
           \cup If(Fit(s, e) = {} /\ ~(e.n = 5 /\ e.x4 /\ ~e.acc),
                   IF e.acc THEN (IF e.len = "1" THEN "ck.accept5" ELSE IF e.len = "3/5" THEN "ck.accept3"
                                  ELSE IF e.len = "1/5" THEN "ck.accept2" ELSE "ck.length")
                   ELSE "ck.reject")
           \cup If(e.dev > DevMax, "ck.stage") \cup If(e.yd > DevMax, "ck.solution") \cup If(e.k0 > 20, "ck.derivative")
           \cup If(e.acc /\ e.xtra # 0, "ck.calls")
           \cup If(e.nfs, "ck.nfs")

(* where more than one outcome fits (a threshold within rounding) the hull is taken *)
HullS(S) == IF S = {} THEN <<-INF, INF>> ELSE
            <<CHOOSE x \in {i[1] : i \in S} : \A j \in S : x <= j[1], CHOOSE x \in {i[2] : i \in S} : \A j \in S : x >= j[2]>>
HullB(S) == IF S = {} THEN AnyCK ELSE
            [q |-> [k \in 1 .. 2 |-> HullS({b.q[k] : b \in S})], w |-> [k \in 1 .. 2 |-> HullS({b.w[k] : b \in S})]]

Step(c, s, e) ==
    CASE e.k = "bad" -> [s EXCEPT !.b = AnyCK, !.h = <<-INF, INF>>, !.rej = FALSE, !.nan = FALSE, !.free = FALSE]
      [] e.k = "fail" -> s
      [] e.k = "a" ->
           LET F == Fit(s, e) IN
           [b |-> HullB({After(s.b, e, o) : o \in F}), h |-> HullS({Add(e.h, Factor(s.b, e, o, ~e.first)) : o \in F}),
            rej |-> ~e.acc, nan |-> e.n = 5 /\ e.x4 /\ ~e.acc, free |-> FALSE]

Tags(c, s, e) ==
    IF e.k # "a" THEN {"ck." \o e.k}
    ELSE {"ck." \o o \o "." \o ToString(e.n) : o \in Fit(s, e)} \cup If(e.acc /\ ~e.first, "ck.acc.afterrej")
         \cup If(e.n = 5 /\ ~e.acc /\ ~e.x4 /\ After(s.b, e, "rej") # s.b, "ck.twiddle")
         \cup If(e.n < 5 /\ s.b.w # CKStart.w, "ck.quit.twiddled") \cup If(e.n = 5 /\ e.x4, "ck.nan")
         \cup If(\E k \in 1 .. 2 : s.b.q[k] = Iv(LQmax), "ck.qmax") \cup If(\E k \in 1 .. 2 : s.b.q[k][1] = 0, "ck.qmin")

T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
