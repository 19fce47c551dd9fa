----------------------------- MODULE CKControl -----------------------------
(* Quit and fallback strategy of the variable order method CKdisc (Cash & Karp 1990), as operators on intervals of
   fixed-point base-2 logarithms (see Controller).  State b: q - the two quit factors, w - the two twiddle factors.
   An attempt yields the norms n1, n2, n4 of its error estimates of order 1, 2 and 4 (scaled: E1 = n1^(1/2),
   E2 = n2^(1/3), E4 = n4^(1/5)) and of the fallback solutions f2, f3.                                               *)
EXTENDS Controller

LQ0   == 108852          \* 100
LQmax == 217705          \* 10000
LTen  == 54427
LTwoThirds == -9584
LTw   == <<9584, 2253>>  \* 1.5, 1.1
LFive == 38043
LSafe == -2490           \* 0.9
LThreeFifths == -12074
LFifth == -38043

Neg == -LTen * 9
IMin(i, j) == <<Mn(i[1], j[1]), Mn(i[2], j[2])>>
IMax(i, j) == <<Mx(i[1], j[1]), Mx(i[2], j[2])>>

E1(a) == Scale(a.n1, 1, 2)
E2(a) == Scale(a.n2, 1, 3)
E4(a) == Scale(a.n4, 1, 5)

CKStart == [q |-> <<Iv(LQ0), Iv(LQ0)>>, w |-> <<Iv(LTw[1]), Iv(LTw[2])>>]

(* certainly / possibly below *)
Below(i, j, tl) == i[2] < j[1] - tl
MayBelow(i, j, tl) == i[1] < j[2] + tl

Thr(b, k) == Add(b.q[k], b.w[k])

(* factor for the next step after acceptance at order 5 *)
CKGrow(a, rej) == CapRej(Clamp(Sub(Iv(LSafe), E4(a)), -INF, LFive), rej)
(* factor for a retry: est is the estimate that stopped the attempt *)
CKRetry(est) == Clamp(Sub(Iv(LSafe), est), LFifth, INF)
CKEst(b, a) == IF a.n = 1 THEN Sub(E1(a), b.q[1]) ELSE IF a.n = 3 THEN Sub(E2(a), b.q[2]) ELSE E4(a)

(* quit factors after an accepted complete attempt: the ratio E/E4, at most ten times larger and at most one third
   smaller than before, and between 1 and 10000 *)
NewQ(q, r) == Clamp(IMax(Add(q, Iv(LTwoThirds)), IMin(r, Add(q, Iv(LTen)))), 0, LQmax)
CKAccepted(b, a) == [b EXCEPT !.q = <<NewQ(b.q[1], Sub(E1(a), E4(a))), NewQ(b.q[2], Sub(E2(a), E4(a)))>>]

(* twiddle factors after a complete attempt that failed: lowered to E/quit, not below 1.1 *)
NewW(w, e) == IMin(w, IMax(Iv(2253), e))
CKCompleted(b, a) == [b EXCEPT !.w = <<NewW(b.w[1], Sub(E1(a), b.q[1])), NewW(b.w[2], Sub(E2(a), b.q[2]))>>]

(* outcomes a completed or stopped attempt may have: "acc5", "acc3", "acc2", "rej" (retry by estimate), "rough" (retry
   with a fifth); tl widens the thresholds *)
CKOutcomes(b, a, tl) ==
    LET full == a.n = 5
        may5 == full /\ ~a.x4 /\ MayBelow(E4(a), Iv(0), tl)
        not5 == ~full \/ (~a.x4 /\ ~Below(E4(a), Iv(0), tl))
        try3 == full /\ not5 /\ ~a.x2
        may3 == try3 /\ MayBelow(E2(a), Iv(0), tl) /\ ~a.y3 /\ MayBelow(a.f3, Iv(0), tl)
        not3 == not5 /\ ~(try3 /\ Below(E2(a), Iv(0), tl) /\ ~a.y3 /\ Below(a.f3, Iv(0), tl))
        try2 == a.n >= 3 /\ not3 /\ ~a.x1
        may2 == try2 /\ MayBelow(E1(a), Iv(0), tl) /\ ~a.y2 /\ MayBelow(a.f2, Iv(0), tl)
        rough == try2 /\ MayBelow(E1(a), Iv(0), tl) /\ (a.y2 \/ ~Below(a.f2, Iv(0), tl))
        rej == not3 /\ (a.n = 1 \/ a.x1 \/ ~Below(E1(a), Iv(0), tl))
    IN (IF may5 THEN {"acc5"} ELSE {}) \cup (IF may3 THEN {"acc3"} ELSE {}) \cup (IF may2 THEN {"acc2"} ELSE {})
       \cup (IF rough THEN {"rough"} ELSE {}) \cup (IF rej THEN {"rej"} ELSE {})

(* how far the attempt may go: its number of stages after the first *)
CKStages(b, a, tl) ==
    (IF a.x1 \/ ~Below(E1(a), Thr(b, 1), tl) THEN {1} ELSE {})
    \cup (IF ~a.x1 /\ MayBelow(E1(a), Thr(b, 1), tl)
          THEN (IF a.x2 \/ ~Below(E2(a), Thr(b, 2), tl) THEN {3} ELSE {})
               \cup (IF ~a.x2 /\ MayBelow(E2(a), Thr(b, 2), tl) THEN {5} ELSE {})
          ELSE {})

Moved(out) == IF out = "acc3" THEN LThreeFifths ELSE IF out = "acc2" THEN LFifth ELSE 0
Factor(b, a, out, rej) ==
    CASE out = "acc5" -> CKGrow(a, rej)
      [] out = "acc3" -> Iv(LThreeFifths)
      [] out = "acc2" -> Iv(LFifth)
      [] out = "rough" -> Iv(LFifth)
      [] out = "rej" -> IF (a.n = 1 /\ a.x1) \/ (a.n = 3 /\ a.x2) THEN Iv(LFifth) ELSE CKRetry(CKEst(b, a))
After(b, a, out) ==
    IF out = "acc5" THEN CKAccepted(b, a) ELSE IF a.n = 5 THEN CKCompleted(b, a) ELSE b
=============================================================================
