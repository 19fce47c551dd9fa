---------------------------- MODULE TraceEsdirk ----------------------------
(* Trace specification of the step loop of the implicit (ESDIRK) methods: Jacobian and factorization policy, Newton
   iterations, error test and step size, event by event of every recorded step.  The design is Esdirk.tla and
   Controller.tla; all real quantities are fixed-point base-2 logarithms.
     jac   a Jacobian evaluation: at (at the start of the step), user (user function, otherwise differences)
     att   an attempt: first, h, d, mn as in StepControl; st: the stages, each with n iterations, fin (the right-hand side
           was finite), dz (norms of the Newton updates), r (ratios), om (intervals of log(1-ratio));
           lu: which factorizations explain the iterates (cur: of the latest Jacobian and this step size, old: of the
           latest Jacobian and the size of the last factorization, stale: of an older Jacobian);
           mis/yd: deviation of iterates/solution from the stage equations; e: error; res: Newton residual of the result
           out acc/rej/newton; whole: all stages done; ls: linear solves
     end   end of a step: counters nlu, nfi, nfs, nls; ok, small                                                    *)
EXTENDS Controller, FiniteSets, TLC, Json, IOUtils
If(b, s) == IF b THEN {s} ELSE {}
Lo(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
Tl == 8
MaxIt == 5
ResMax == 8
Half == -U

VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Pm(c) == [fam |-> "esdirk", q1 |-> c.q1, k1 |-> c.k1, k2 |-> c.k2, al |-> c.al, sf |-> c.sf, mx |-> c.mx, tiny |-> c.tiny]
AnyB(o) == {[std |-> s, red |-> r, h |-> o] : s \in BOOLEAN, r \in BOOLEAN}

NoRate == [lo |-> 0, hi |-> 0, none |-> TRUE, known |-> FALSE, n1 |-> 0, n2 |-> 0]

Start(c) == [B |-> {[std |-> TRUE, red |-> FALSE, h |-> IF c.h0 = INF THEN <<-INF, INF>> ELSE Iv(c.h0)]},
             eo |-> <<0, 0>>, free |-> c.h0 = INF,
             jcur |-> TRUE,      \* the Jacobian belongs to the start of this step
             fresh |-> FALSE,    \* it was evaluated since the last factorization
             fac |-> FALSE,      \* there is a factorization
             rejd |-> FALSE,     \* the step was reduced after a failure in this step
             last |-> "none",    \* outcome of the previous attempt of this step
             hl |-> <<0, 0>>,    \* its size
             jl |-> FALSE,       \* the Jacobian was refreshed since
             R |-> NoRate,       \* convergence rate of the last accepted attempt
             lumin |-> 0, lumax |-> 0, nfi |-> 0, nfs |-> 0, nls |-> 0]

(* ------------------------------------------------ Newton iteration: possible outcomes at iteration k (from 0) *)
(* dz[k+1]: interval of the norm of the update of iteration k; r[k]: of its ratio to the one before; om[k]: of log(1-r) *)
Rates(c, s, k, j) ==                  \* index of the ratio that may determine the rate after iteration k >= 1 (0: none)
    LET take == j = 0 \/ s.dz[k][2] > c.kappa - c.tl
        keep == j > 0 /\ s.dz[k][1] < c.kappa + c.tl IN
    (IF take THEN IF j = 0 THEN {k}
                  ELSE (IF s.r[k][2] > s.r[j][1] - c.tl THEN {k} ELSE {}) \cup (IF s.r[j][2] > s.r[k][1] - c.tl THEN {j} ELSE {})
     ELSE {}) \cup (IF keep THEN {j} ELSE {})

Outcomes(c, s, k, j) ==               \* outcomes at iteration k with the rate of index j
    LET zl == s.dz[k + 1][1]
        zh == s.dz[k + 1][2] IN
    (IF zl <= c.tiny + c.tl THEN {"c"} ELSE {}) \cup
    (IF zh < c.tiny - c.tl THEN {}
     ELSE IF k = 0 THEN {"g"}
     ELSE LET t2 == c.tl * 8
              rl == s.r[j][1]
              rh == s.r[j][2] IN
          (IF rh > -c.tl \/ zh + (MaxIt - k) * rh >= c.kappa + s.om[j][1] - t2 THEN {"f"} ELSE {})
          \cup (IF rl > c.tl THEN {}
                ELSE IF zl + (MaxIt - k) * rl > c.kappa + s.om[j][2] + t2 THEN {}
                ELSE (IF zl + rl < c.kappa + s.om[j][2] + t2 THEN {"c"} ELSE {})
                     \cup (IF zh + rh > c.kappa + s.om[j][1] - t2 THEN {"g"} ELSE {})))

RECURSIVE Run(_, _, _, _)
(* the set of <<iterations, outcome>> with which the stage may end, following the recorded updates *)
Run(c, s, k, J) ==
    LET n == Len(s.dz)
        JJ == IF k = 0 THEN {0} ELSE UNION {Rates(c, s, k, j) : j \in J}
        O == [j \in JJ |-> Outcomes(c, s, k, j)]
        go == {j \in JJ : "g" \in O[j]}
        here == UNION {{<<k + 1, x>> : x \in O[j] \ {"g"}} : j \in JJ} IN
    here \cup (IF go = {} THEN {}
               ELSE IF k + 1 >= MaxIt THEN {<<MaxIt, "f">>}
               ELSE IF k + 1 >= n THEN {<<n, "g">>}
               ELSE Run(c, s, k + 1, go))

StageEnds(c, s) == IF c.linear THEN {<<1, IF s.fin THEN "c" ELSE "f">>}
                   ELSE IF s.dz = <<>> THEN {<<1, "f">>}
                   ELSE LET R == Run(c, s, 0, {0}) IN
                        IF s.fin THEN R
                        ELSE IF <<Len(s.dz), "g">> \in R THEN {<<s.n, "f">>} ELSE R

Good(c, s) == <<s.n, "c">> \in StageEnds(c, s)
Failed(c, s) == ~s.fin \/ <<s.n, "f">> \in StageEnds(c, s)

NewtonViol(c, e) ==
    UNION {If(~Good(c, e.st[i]), "newton.unconverged") : i \in 1 .. Len(e.st) - (IF e.out = "newton" THEN 1 ELSE 0)}
    \cup If(e.out = "newton" /\ ~Failed(c, e.st[Len(e.st)]), "newton.given.up")

(* the ratios that may be the convergence rate of a stage (0: no rate); convergence by a tiny update leaves the rate *)
RECURSIVE FinalJ(_, _, _, _)
FinalJ(c, s, k, J) ==
    LET JJ == IF k = 0 THEN {0} ELSE UNION {Rates(c, s, k, j) : j \in J} IN
    IF k + 1 = s.n
    THEN {j \in JJ : "c" \in Outcomes(c, s, k, j)} \cup (IF s.dz[k + 1][1] <= c.tiny + c.tl THEN (IF k = 0 THEN {0} ELSE J) ELSE {})
    ELSE FinalJ(c, s, k + 1, {j \in JJ : "g" \in Outcomes(c, s, k, j)})
StageRate(c, s) ==       \* <<least, largest, none possible, known>> in units of 1/10000
    IF c.linear \/ ~s.fin \/ Len(s.dz) # s.n \/ s.n > Len(s.dz) THEN <<0, 0, TRUE, FALSE>>
    ELSE LET J == FinalJ(c, s, 0, {0}) IN
         IF J = {} THEN <<0, 0, TRUE, FALSE>>
         ELSE <<Lo({15000} \cup {IF j = 0 THEN 0 ELSE s.rl[j][1] : j \in J}),
                Lo({15000, Hi({IF j = 0 THEN 0 ELSE s.rl[j][2] : j \in J})}), 0 \in J, TRUE>>
Rate(c, e) ==            \* of an attempt, and its number of iterations
    LET R == {StageRate(c, e.st[i]) : i \in 1 .. Len(e.st)} IN
    [lo |-> Hi({r[1] : r \in R}), hi |-> Hi({r[2] : r \in R}), none |-> \A r \in R : r[3],
     known |-> Len(e.st) > 0 /\ ~e.vague /\ \A r \in R : r[4], ni |-> Hi({e.st[i].n : i \in 1 .. Len(e.st)} \cup {0})]
RateOf(c, ev) ==
    LET A == {Rate(c, ev.alts[i]) : i \in 1 .. Len(ev.alts)} IN
    [lo |-> Lo({a.lo : a \in A}), hi |-> Hi({a.hi : a \in A}), none |-> \E a \in A : a.none, known |-> \A a \in A : a.known,
     n1 |-> Lo({a.ni : a \in A}), n2 |-> Hi({a.ni : a \in A})]

(* renewal at the start of a step, before any failure, predicted from the rate R and the change of step size:
   pq, fq: ratio of the step size to that of the step before and to that of the factorization *)
One == 10000
MaxRate == 2000
PTol == 20
Abs(x) == IF x < 0 THEN -x ELSE x
PreRules(c, s, e) ==
    IF ~e.pk \/ ~s.R.known \/ c.linear \/ c.each \/ e.pq[2] > 100000 \/ e.fq[2] > 100000 THEN {}
    ELSE LET R == s.R
             uh == Hi({Abs(e.fq[1] - One), Abs(e.fq[2] - One)}) + PTol
             ul == IF e.fq[1] <= One /\ One <= e.fq[2] THEN 0 ELSE Hi({Lo({Abs(e.fq[1] - One), Abs(e.fq[2] - One)}) - PTol, 0})
             ph == (R.hi * e.pq[2]) \div One + PTol
             pl == (R.lo * e.pq[1]) \div One - PTol
             rate == R.lo > 0 /\ ~R.none
             jmust == rate /\ R.n1 > 2 /\ pl - uh > MaxRate
             jmay == R.hi > 0 /\ R.n2 > 2 /\ ph - ul > MaxRate
             lmust == rate /\ ul > MaxRate
             lmay == R.hi > 0 /\ uh > MaxRate
             lu == UNION {{e.alts[i].lu[j] : j \in 1 .. Len(e.alts[i].lu)} : i \in 1 .. Len(e.alts)} IN
         {"?"} \cup If(jmust, "rule.jac") \cup If(~s.jcur /\ lmust, "rule.lu") \cup If(~jmay /\ ~lmay, "rule.keep")
         \cup If(jmust /\ ~s.jcur, "pre.jac") \cup If(s.jcur /\ ~jmay, "pre.jac.needless")
         \cup If(~s.jcur /\ lmust /\ lu = {"old"}, "pre.lu") \cup If(~s.jcur /\ ~lmay /\ lu = {"cur"}, "pre.lu.needless")

PreTags == {"?", "rule.jac", "rule.lu", "rule.keep"}
PreViol(c, s, e) == PreRules(c, s, e) \ PreTags

(* ------------------------------------------------ step size *)
Cand(c, s, e) ==
    IF e.first
    THEN IF s.free /\ \A b \in s.B : b.h[1] = -INF
         THEN {[std |-> TRUE, red |-> FALSE, h |-> e.h]}
         ELSE UNION {Reassessed(Pm(c), b, e.mn, c.mxs, e.d, Tl) : b \in s.B}
    ELSE s.B
Obs(c, s, e) == Matches(Cand(c, s, e), e.h, Tl)
Bel(c, s, e) == LET M == Obs(c, s, e) IN IF M = {} THEN AnyB(e.h) ELSE Narrow(M, e.h)

SizeViol(c, s, e) ==
    If(Obs(c, s, e) = {}, IF e.first THEN "size.next"
                          ELSE IF s.last # "newton" THEN "size.retry"
                          ELSE IF s.jl THEN "newton.samesize" ELSE "newton.reduce")
    \cup If(e.h[1] > e.d + Tl, "size.bound")
    \cup If(e.h[1] > c.mxs + 2 /\ e.d # e.h[1], "size.max")

(* ------------------------------------------------ Jacobian and factorization *)
NeedNew(c, s, e) == ~s.fac \/ s.fresh \/ s.last = "newton" \/ c.each
                    \/ (c.linear /\ ~(e.first /\ s.hl[1] <= e.h[2] + 2 /\ e.h[1] <= s.hl[2] + 2))
Has(e, x) == \E i \in 1 .. Len(e.lu) : e.lu[i] = x

AltViol(c, s, e) ==
    (IF e.vague THEN {} ELSE NewtonViol(c, e))
    \cup If(e.lu # <<>> /\ NeedNew(c, s, e) /\ ~Has(e, "cur"), "lu.new")
    \cup If(e.lu # <<>> /\ ~NeedNew(c, s, e) /\ ~Has(e, "cur") /\ ~Has(e, "old"), "lu.stale")
    \cup If(c.linear /\ \E i \in 1 .. Len(e.st) : e.st[i].n # 1, "linear.iterations")
    \cup If(e.mis > 0, "stage") \cup If(e.yd > 0, "solution")
    \cup If(e.out = "acc" /\ (e.nan \/ e.e[1] > 0), "accept")
    \cup If(e.out = "rej" /\ ~e.nan /\ e.e[2] < 0, "reject")
    \cup If(e.out = "acc" /\ e.nst # c.S - 1, "schedule")
    \cup If(e.out = "acc" /\ c.smooth /\ e.res > ResMax, "residual")

(* the first alternative without violations, otherwise the first one, explains the attempt *)
Alt(e, i) == e.alts[i] @@ [first |-> e.first, h |-> e.h]
Best(c, s, e) == IF Len(e.alts) = 1 THEN 1
                 ELSE IF \E i \in 1 .. Len(e.alts) : AltViol(c, s, Alt(e, i)) = {}
                 THEN CHOOSE i \in 1 .. Len(e.alts) : AltViol(c, s, Alt(e, i)) = {}
                                                     /\ \A j \in 1 .. i - 1 : AltViol(c, s, Alt(e, j)) # {}
                 ELSE 1
AttViol(c, s, e) ==
    AltViol(c, s, Alt(e, Best(c, s, e))) \cup SizeViol(c, s, e)
    \cup If(e.sched, "schedule")
    \cup PreViol(c, s, e)
    \cup If(s.last = "newton" /\ ~s.jcur /\ ~c.linear, "jac.refresh")
    \cup If(c.each /\ ~s.jcur /\ ~c.linear, "jac.each")

JacViol(c, s, e) ==
    If(~e.at, "jac.where") \cup If(s.jcur, "jac.twice") \cup If(c.linear, "jac.constant")
    \cup If(s.last = "rej", "jac.when")

EndViol(c, s, e) ==
    If(e.nlu < s.lumin \/ e.nlu > s.lumax, "count.nlu")
    \cup If(e.nfi # s.nfi, "count.nfi") \cup If(e.nfs # s.nfs, "count.nfs") \cup If(e.nls # s.nls, "count.nls")
    \cup If(e.ok /\ ~e.acc, "schedule")
    \cup If(~e.ok /\ ~e.small, "fail.other")
    \cup If(~e.ok /\ e.small /\ \A b \in (IF e.first THEN UNION {ClipBranches(b, e.mn, c.mxs, Tl) : b \in s.B}
                                          ELSE s.B) : b.h[1] > e.mn[2] + Tl, "fail.small")

Viol(c, s, e) == CASE e.k = "jac" -> JacViol(c, s, e) [] e.k = "att" -> AttViol(c, s, e)
                   [] e.k = "end" -> EndViol(c, s, e) [] OTHER -> {"schedule"}

(* ------------------------------------------------ next state *)
AfterAtt(c, s, ev) ==
    LET e == ev.alts[Best(c, s, ev)] @@ ev
        W == UNION {{ev.alts[i].lu[j] : j \in 1 .. Len(ev.alts[i].lu)} \cup (IF ev.alts[i].lu = <<>> THEN {"cur", "old"} ELSE {})
                    : i \in 1 .. Len(ev.alts)}
        Bs == Bel(c, s, ev)
        cur == "cur" \in W
        old == ~NeedNew(c, s, e) /\ "old" \in W
        B2 == IF e.out = "newton"
              THEN IF s.jcur \/ c.linear THEN UNION {NewtonReduced(Pm(c), b, e.h) : b \in Bs} ELSE Bs
              ELSE IF e.out = "rej" THEN UNION {Rejected(Pm(c), b, e.h, e.e) : b \in Bs}
              ELSE UNION {Accepted(Pm(c), b, e.h, e.e, s.eo, e.hr, s.rejd) : b \in Bs} IN
    [s EXCEPT !.B = B2, !.free = FALSE, !.fac = TRUE, !.fresh = FALSE,
              !.rejd = s.rejd \/ e.out = "rej" \/ (e.out = "newton" /\ (s.jcur \/ c.linear)),
              !.last = e.out, !.hl = e.h, !.jl = FALSE,
              !.eo = IF e.out = "acc" THEN e.e ELSE s.eo,
              !.R = IF e.out = "acc" THEN RateOf(c, ev) ELSE NoRate,
              !.lumin = s.lumin + (IF NeedNew(c, s, e) \/ ~old THEN 1 ELSE 0),
              !.lumax = s.lumax + (IF cur THEN 1 ELSE 0),
              !.nfi = s.nfi + (IF e.out = "newton" THEN 1 ELSE 0),
              !.nfs = s.nfs + (IF e.out = "rej" THEN 1 ELSE 0),
              !.nls = s.nls + e.ls + (IF c.filt /\ e.out # "newton" THEN 1 ELSE 0)]

Step(c, s, e) ==
    CASE e.k = "jac" -> [s EXCEPT !.jcur = TRUE, !.fresh = TRUE, !.jl = TRUE]
      [] e.k = "att" -> AfterAtt(c, s, e)
      [] e.k = "end" -> [s EXCEPT !.jcur = c.linear, !.last = "none", !.rejd = FALSE, !.jl = FALSE,
                                  !.lumin = 0, !.lumax = 0, !.nfi = 0, !.nfs = 0, !.nls = 0]
      [] OTHER -> s

AttTags(c, s, e) ==
    {e.out} \cup (PreRules(c, s, e) \cap PreTags) \cup If(Has(e, "old") /\ ~Has(e, "cur"), "lu.kept") \cup If(Has(e, "cur") /\ ~Has(e, "old"), "lu.new")
    \cup If(c.linear, "linear") \cup If(c.each, "each")
    \cup If(e.out = "newton" /\ s.jcur, "newton.current") \cup If(e.out = "newton" /\ ~s.jcur, "newton.old")
    \cup If(e.out = "rej" /\ s.last = "rej", "rej.again") \cup If(e.out = "newton" /\ s.last = "rej", "newton.afterrej")
    \cup If(e.out = "newton" /\ ~e.st[Len(e.st)].fin, "nonfinite")
    \cup If(\E i \in 1 .. Len(e.st) : e.st[i].n >= 4, "slow")
    \cup If(e.out = "acc" /\ \A b \in Bel(c, s, e) : b.std, "acc.first")
    \cup If(e.out = "acc" /\ \A b \in Bel(c, s, e) : ~b.std, "acc.second")

Tags(c, s, e) ==
    CASE e.k = "jac" -> If(s.last = "newton", "jac.retry") \cup If(s.last = "none", "jac.start") \cup If(~e.user, "jac.differences")
      [] e.k = "att" -> AttTags(c, s, e.alts[Best(c, s, e)] @@ e)
      [] e.k = "end" -> If(~e.ok, "failed")
      [] OTHER -> {}

T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
