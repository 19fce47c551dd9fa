------------------------------ MODULE MCStiff ------------------------------
(* All histories of steps, rejections and outcomes of the assessment, with small constants. *)
EXTENDS Stiffness, TLC
CONSTANTS Ms, MaxStep, MaxRej
VARIABLES M, b, rej, n, done, lots, why, said, hist, gap, ph
vars == <<M, b, rej, n, done, lots, why, said, hist, gap, ph>>

R == [left : BOOLEAN, near2 : BOOLEAN, axis : BOOLEAN, out : BOOLEAN]
Init == M \in Ms /\ b = BookStart /\ rej = 0 /\ n = 0 /\ done = FALSE /\ lots = FALSE /\ why = "" /\ said = "none" /\ hist = <<>> /\ gap = 0 /\ ph = "step"

Reject == ph = "step" /\ rej < MaxRej /\ rej' = rej + 1 /\ hist' = hist /\ UNCHANGED <<M, b, n, done, lots, why, said, gap, ph>>
Accept == /\ ph = "step" /\ b.ok < MaxStep
          /\ LET oc == Occasion(b, rej, M) IN
             /\ ph' = IF oc THEN "assess" ELSE "step"
             /\ gap' = IF oc THEN 0 ELSE gap + 1
             /\ lots' = Lotsfl(b, rej)
             /\ why' = IF oc THEN (IF Lotsfl(b, rej) THEN "lots" ELSE "much") ELSE ""
          /\ b' = Booked(b, rej) /\ rej' = 0 /\ n' = 0 /\ said' = "none"
          /\ hist' = Append(hist, rej)
          /\ UNCHANGED <<M, done>>
End(w) == ph' = "step" /\ said' = w /\ UNCHANGED <<M, b, rej, done, lots, why, hist, gap>>
Skip == ph = "assess" /\ n = 0 /\ End("none") /\ n' = n
Product == ph = "assess" /\ n < 3*MaxTry /\ n' = n + 1 /\ ph' = "test" /\ UNCHANGED <<M, b, rej, done, lots, why, said, hist, gap>>
Test == /\ ph = "test" /\ n' = n
        /\ \/ TestsSmall(n) /\ End(Warns("not", "none", lots))
           \/ TestsLarge(n) /\ End(Warns("unsure", "none", lots))
           \/ TestsReal(n) /\ \E r \in R : ~r.axis /\ ~r.near2 /\ End(Warns(Verdict(r), "real", lots))
           \/ TestsPair(n) /\ \E r \in R : End(Warns(Verdict(r), "pair", lots))
           \/ Last(n) /\ End(Warns("unsure", "none", lots))
           \/ ~Last(n) /\ ph' = "assess" /\ UNCHANGED <<M, b, rej, done, lots, why, said, hist, gap>>
Next == Reject \/ Accept \/ Skip \/ Product \/ Test
Spec == Init /\ [][Next]_vars

Sum(s) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE s[k] + S(k - 1) IN S(Len(s))
Max0(x, y) == IF x > y THEN x ELSE y
Min0(x, y) == IF x < y THEN x ELSE y
Win(s, k) == SubSeq(s, Max0(1, Len(s) - k + 1), Len(s))
Off == M = 0 => ph = "step" /\ n = 0 /\ said = "none"
Bounded == n <= 3*MaxTry
(* the problem is assessed at least every M accepted steps *)
Regular == M > 0 => gap < M
(* assessed for many failures only if the last Period steps had that many; never if there were none *)
LotsTrue == lots => Sum(Win(hist, Period)) >= Lots
(* many failures in a window aligned with the period, after the start, are noticed *)
LotsSeen == (b.ok % Period = Period - 1 /\ b.ok > Reset /\ Sum(Win(hist, Min0(Period, b.ok - Reset))) >= Lots) => lots
(* no talk of oscillation without many failures; no warning without an assessment *)
OscOnlyLots == said = "osc" => lots
Counted == b.jf <= Sum(hist)
=============================================================================
