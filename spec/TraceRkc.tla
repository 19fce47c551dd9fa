------------------------------ MODULE TraceRkc ------------------------------
(* Trace specification of SSV2stab.  Events, one per attempt:
     a     first (of its step), last (of its step); rho: "none", "user", "power" - the spectral radius work done before it,
           sp: the radius found, pearly/plate: the power iteration could have stopped before / should not have stopped at
           the last iterate, pdev: deviation of its iterates (power of two); init: a trial evaluation for the first step
           was made, at distance t0, with curvature est;  h, d, m, la = log2((m-1)^2-1), lb = log2(m^2-1), hm smallest size,
           e error, nan, acc; dev, tdev, yd: deviation of stage arguments, stage times and solution; fd: the slope in use is
           that at the accepted point;  xtra: further calls;  nfs: the failure counter is wrong;  warn: stiffness warning
     bad   the calls do not form attempts
     fail  the step failed: small, over, rho (reason), pn, pinf power iterations and whether they left the finite numbers *)
EXTENDS RkcControl, TLC, Json, IOUtils

If(p, s) == IF p THEN {s} ELSE {}
Tl == 8
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Start(c) == [b |-> RkcStart, sp |-> <<-INF, INF>>, H |-> IF c.h0 = INF THEN {} ELSE {Iv(c.h0)}, hold |-> Iv(INF), eo |-> Iv(0),
             w |-> FALSE, sure |-> TRUE, ok |-> TRUE, hm |-> Iv(-INF)]

Sp(s, e) == IF e.rho = "none" THEN s.sp ELSE e.sp
(* largest step the stage limit allows *)
LimH(c, s, e) == Sub(Iv(c.lmm), Add(Iv(L154), Sp(s, e)))
Prop(c, s, e) == IF e.init THEN InitH(e.t0, e.est, c.mxs, c.hm0, Tl) ELSE s.H
Limited(c, s, e) == UNION {RkcLimited(h, c.mxs, e.d, Tl) : h \in Prop(c, s, e)}
(* could the stage limit have been active, and could it not *)
Capped(c, s, e, h) == e.m = c.mmax /\ Demand(h, Sp(s, e))[2] >= c.lmm - Tl
Free(c, s, e, h) == Demand(h, Sp(s, e))[1] < e.lb + Tl
Fits(i, o) == i[1] <= o[2] + Tl /\ i[2] >= o[1] - Tl
SizeFit(c, s, e) == {h \in Limited(c, s, e) : (Fits(h, e.h) /\ Free(c, s, e, h)) \/ (Capped(c, s, e, h) /\ Fits(LimH(c, s, e), e.h))}
IsCapped(c, s, e) == \E h \in Limited(c, s, e) : Capped(c, s, e, h) /\ Fits(LimH(c, s, e), e.h) /\ ~(Fits(h, e.h) /\ Free(c, s, e, h))
MayCap(c, s, e) == \E h \in Limited(c, s, e) : Capped(c, s, e, h) /\ Fits(LimH(c, s, e), e.h)
Dem(c, s, e) == Demand(e.h, Sp(s, e))

NowWarn(c, s, e) == Attempted(s.b, IsCapped(c, s, e)).ml = 15

Viol(c, s, e) ==
    IF ~s.ok THEN {} ELSE
    CASE e.k = "bad" -> {"rkc.schedule"}
      [] e.k = "fail" ->
           If(~e.msg, "rkc.fail.msg") \cup If(~e.small /\ ~e.over /\ ~e.rho, "rkc.fail.other")
           \cup If(e.rho /\ ~s.b.new, "rkc.fail.rho")
           \cup If(e.rho /\ ~(e.pn = 50 \/ e.pinf), "rkc.power.gaveup")
           \cup If(e.small /\ s.H # {} /\ \A h \in s.H : h[1] > s.hm[2] + Tl, "rkc.fail.small")
      [] e.k = "a" ->
           If(s.b.new /\ e.rho = "none", "rkc.rho.missing") \cup If(~s.b.new /\ e.rho # "none", "rkc.rho.again")
           \cup If(e.rho = (IF c.user THEN "power" ELSE "user"), "rkc.rho.source")
           \cup If(e.pearly \/ e.plate, "rkc.power.stop") \cup If(e.pdev > -10, "rkc.power.iterate")
           \cup If(e.init # (s.H = {}), "rkc.init") \cup If(e.init /\ ~Fits(TrialH(Sp(s, e), c.mxs, c.hm0), e.t0), "rkc.init.trial")
           \cup If(SizeFit(c, s, e) = {} /\ (e.init \/ s.H # {}), IF e.first THEN "rkc.size.next" ELSE "rkc.size.retry")
           \cup If(Dem(c, s, e)[1] >= e.lb + Tl /\ ~MayCap(c, s, e), "rkc.stages.unstable")
           \cup If(Dem(c, s, e)[2] < e.la - Tl /\ ~MayCap(c, s, e), "rkc.stages.toomany")
           \cup If(e.m > c.mmax, "rkc.stages.max")
           \cup If(e.acc /\ (e.nan \/ e.e[1] >= 0 + 1), "rkc.accept")
           \cup If(~e.acc /\ ~e.nan /\ e.e[2] < 0, "rkc.reject")
           \cup If(e.tdev > 4, "rkc.stage.time") \cup If(e.dev > 8, "rkc.stage") \cup If(e.yd > 8, "rkc.solution")
           \cup If(~e.fd, "rkc.slope") \cup If(e.xtra # 0, "rkc.calls") \cup If(e.nfs, "rkc.nrejct")
           \cup If(e.last /\ s.sure /\ MayCap(c, s, e) = IsCapped(c, s, e) /\ e.warn # (s.w \/ NowWarn(c, s, e)), "rkc.warn")

Step(c, s, e) ==
    IF e.k \in {"fail", "bad"} \/ Viol(c, s, e) # {} THEN [s EXCEPT !.ok = FALSE]
    ELSE LET b1 == Attempted(Estimated(s.b), IsCapped(c, s, e))
             sp == Sp(s, e) IN
         LET z == [s EXCEPT !.sp = sp, !.sure = @ /\ MayCap(c, s, e) = IsCapped(c, s, e), !.hm = e.hm,
                            !.w = IF e.last THEN FALSE ELSE @ \/ NowWarn(c, s, e)] IN
         IF e.acc
         THEN LET x == Add(e.h, IF s.hold = Iv(INF) THEN FirstFac(e.e) ELSE NextFac(e.h, s.hold, e.e, s.eo))
                  y == <<Mn(x[1], c.mxs), Mn(x[2], c.mxs)>> IN
              [z EXCEPT !.b = RkcAccepted(b1, c.const, c.user), !.hold = e.h, !.eo = e.e,
                        !.H = {<<Mx(y[1], e.hm[1]), Mx(y[2], e.hm[2])>>}]
         ELSE [z EXCEPT !.b = RkcRejected(b1), !.H = {RetryH(e.h, e.e)}]

Tags(c, s, e) == IF e.k # "a" THEN {"rkc.fail"}
    ELSE {"rkc.rho." \o e.rho} \cup If(e.init, "rkc.init") \cup If(~e.acc, "rkc.rejected") \cup If(~e.acc /\ ~s.b.att /\ ~s.b.new, "rkc.oldestimate")
         \cup If(NowWarn(c, s, e), "rkc.warned")
         \cup If(IsCapped(c, s, e), "rkc.capped") \cup If(e.m = 2, "rkc.two") \cup If(e.m > 20, "rkc.many") \cup If(s.b.ns = 0 /\ s.hold # Iv(INF) /\ s.b.new, "rkc.twentyfive")
         \cup If(e.nan, "rkc.nan") \cup If(c.const, "rkc.const")

T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
