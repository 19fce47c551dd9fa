------------------------------- MODULE Esdirk -------------------------------
(* Design of the step loop of the implicit methods: Jacobian and factorization policy around the Newton iteration and the
   error test, on top of the step size rules of Controller.tla.  Every sequence of at most MaxAtt attempts, each of which
   ends accepted (by a margin), rejected or in a failed Newton iteration, with slow or fast convergence, for the four
   kinds of Jacobians.  The sequences of outcomes are written out as scripts for replay on the real solvers.

   Versions of the Jacobian are numbered (jver); lu = [j, h] is the Jacobian and step size of the factorization.     *)
EXTENDS Controller, TLC

CONSTANTS MaxAtt, Emit

Kinds == {"func", "numeric", "array", "each"}
Err == [T |-> -519 * U, M |-> -54427, A |-> -5274, R |-> 9584, H |-> 489835, N |-> 0]
Cls == DOMAIN Err
P == [fam |-> "esdirk", q1 |-> 4, k1 |-> 200, k2 |-> -100, al |-> -100, sf |-> -5274, mx |-> 54427, tiny |-> -682000]
Twenty == 4309                    \* log2(1.2)
Eighty == -5274                   \* log2(0.8)

VARIABLES kind, mxs, b, eo, hp, rej,
          jver,                   \* version of the Jacobian, 0: none
          jcur,                   \* it belongs to the start of the present step
          lu,                     \* factorization: [j, h], j = 0: none
          nj,                     \* Jacobian evaluations in this step
          ph,                     \* where the loop is: "size" before the first attempt, "try" before a retry, "dead"
          hist, act               \* outcomes so far; what the last attempt did
vars == <<kind, mxs, b, eo, hp, rej, jver, jcur, lu, nj, ph, hist, act>>
Lin == kind = "array"

None == [out |-> "none", h |-> 0, hn |-> 0, lj |-> 0, lh |-> 0, jc |-> TRUE, rj |-> FALSE, retry |-> "none", newlu |-> FALSE, jv |-> 0, pre |-> FALSE]
Init == /\ kind \in Kinds /\ mxs \in {INF, 16384}
        /\ b = [std |-> TRUE, red |-> FALSE, h |-> Iv(0)]
        /\ eo = Iv(0) /\ hp = Iv(0) /\ rej = FALSE
        /\ jver = 1 /\ jcur = TRUE /\ lu = [j |-> 0, h |-> 0] /\ nj = 0
        /\ ph = "size" /\ hist = <<>> /\ act = None

Pick(I) == Iv((I[1] + I[2]) \div 2)

(* the factorization used by an attempt of size h *)
Factor(h, jv, l0) == IF (l0.j # jv) \/ (kind = "each") \/ (Lin /\ l0.h # h) THEN [j |-> jv, h |-> h] ELSE l0

(* one attempt with outcome c; slow: some stage needed more than two iterations; bigr: its convergence rate is large
   compared with the mismatch of the factorization *)
Attempt(c, slow, bigr) ==
    \E x \in IF ph = "size" THEN Reassessed(P, b, Iv(-INF), mxs, INF \div 2, 0) ELSE {b} :
    LET h == Pick(x.h)[1]
        newj == kind = "each" /\ ~jcur
        jv == IF newj THEN jver + 1 ELSE jver
        l1 == Factor(h, jv, lu) IN
    /\ Len(hist) < MaxAtt /\ ph # "dead"
    /\ (slow \/ ~bigr)
    /\ hist' = Append(hist, c) /\ UNCHANGED <<kind, mxs>>
    /\ IF c = "N"
       THEN \* failed Newton iteration: first retry with a fresh Jacobian, then reduce the step
            /\ IF jcur \/ newj \/ Lin
               THEN /\ b' \in {[y EXCEPT !.h = Pick(y.h)] : y \in NewtonReduced(P, x, Iv(h))}
                    /\ rej' = TRUE /\ jver' = jv /\ jcur' = (jcur \/ newj) /\ nj' = nj + (IF newj THEN 1 ELSE 0)
                    /\ lu' = [j |-> 0, h |-> 0]
               ELSE /\ b' = [x EXCEPT !.h = Iv(h)] /\ rej' = rej
                    /\ jver' = jv + 1 /\ jcur' = TRUE /\ nj' = nj + 1
                    /\ lu' = [j |-> 0, h |-> 0]
            /\ UNCHANGED <<eo, hp>>
            /\ ph' = "try"
       ELSE IF Err[c] >= 0
       THEN /\ b' \in Rejected(P, x, Iv(h), Iv(Err[c])) /\ rej' = TRUE
            /\ UNCHANGED <<eo, hp>>
            /\ jver' = jv /\ jcur' = (jcur \/ newj) /\ nj' = nj + (IF newj THEN 1 ELSE 0)
            /\ lu' = l1 /\ ph' = "try"
       ELSE \E y \in Accepted(P, x, Iv(h), Iv(Err[c]), eo, Sub(Iv(h), hp), rej) :
            LET nh == Pick(Iv(Mn(y.h[1], mxs)))[1]
                far == nh - l1.h > Twenty \/ nh - l1.h < Eighty IN
            /\ b' = y /\ eo' = Iv(Err[c]) /\ hp' = Iv(h) /\ rej' = FALSE
            /\ ph' = "size" /\ nj' = IF ~Lin /\ kind # "each" /\ slow /\ bigr THEN 1 ELSE 0
            /\ jver' = jv + (IF ~Lin /\ kind # "each" /\ slow /\ bigr THEN 1 ELSE 0)
            /\ jcur' = (Lin \/ (kind # "each" /\ slow /\ bigr))
            /\ lu' = IF Lin \/ kind = "each" THEN l1 ELSE IF (slow /\ bigr) \/ far THEN [j |-> 0, h |-> 0] ELSE l1
    /\ act' = [out |-> c, h |-> h, hn |-> b'.h[1], lj |-> l1.j, lh |-> l1.h, jc |-> jcur \/ newj, rj |-> (jver' # jv),
               retry |-> IF ph = "try" THEN act.out ELSE "none", newlu |-> (l1 # lu), jv |-> jv,
               pre |-> IF ph = "try" THEN act.rj ELSE FALSE]

Next == \E c \in Cls, s \in BOOLEAN, r \in BOOLEAN : Attempt(c, s, r)

Emitted == IF Emit /\ Len(hist) = MaxAtt /\ kind = "func" THEN PrintT("SCRIPT " \o ToString(mxs # INF) \o " " \o ToString(hist)) ELSE TRUE

On == Len(hist) > 0
Ok(c) == c # "N" /\ Err[c] < 0
(* the factorization belongs to the latest Jacobian *)
FactorizationOfLatest == On => act.lj = act.jv
(* a constant Jacobian is never evaluated again, and every attempt is made with the factorization of its own step size *)
LinearExact == (On /\ Lin) => jver = 1 /\ act.lh = act.h
(* the Jacobian of every step if asked for *)
EachFresh == (On /\ kind = "each") => act.jc /\ act.lh = act.h
(* the step is reduced only with a current Jacobian, otherwise it is retried once with a fresh one *)
RefreshBeforeReduce == (On /\ act.out = "N") => IF act.jc \/ Lin THEN act.hn < act.h - U + 2 /\ act.hn > act.h + MinF - 2
                                                ELSE act.hn = act.h /\ act.rj
OneRefreshPerStep == nj <= 1
NoTwoRetriesOfSameSize == (On /\ act.out = "N" /\ act.retry = "N" /\ act.pre) => act.hn < act.h
NoGrowthAfterFailure == (On /\ Ok(act.out) /\ act.retry \in {"R", "H", "N"} /\ ~act.pre) => act.hn <= act.h + 2
ShrinkAfterRejection == (On /\ act.out \in {"R", "H"}) => act.hn < act.h
NeverStaleAtRetry == (On /\ act.retry = "N") => act.newlu
=============================================================================
