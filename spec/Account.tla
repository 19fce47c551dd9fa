------------------------------ MODULE Account ------------------------------
(* What an integration costs.  Cost parameters of a method: s evaluations of a complete attempt, p evaluations of an
   attempt given up after the preliminary estimate (0: never), e evaluations at the accepted point (0 for methods whose
   last stage is that point), x evaluations of an interpolant.  The solver counts every evaluation as it makes it and
   every rejected attempt; the model shows that this equals the cost of its history.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* cost of a step: list of attempts ("full" or "pre"), accepted or not, evaluations for stiffness assessment *)
RECURSIVE Sum(_, _)
Sum(att, P) == IF att = <<>> THEN 0 ELSE (IF Head(att) = "pre" THEN P.p ELSE P.s) + Sum(Tail(att), P)
StepCost(P, nfull, npre, acc) == nfull * P.s + npre * P.p + (IF acc THEN P.e ELSE 0)
Rejected(nfull, npre, acc) == nfull + npre - (IF acc THEN 1 ELSE 0)

CONSTANTS MaxEv
VARIABLES P, nfev, nfs, hist, att, status
vars == <<P, nfev, nfs, hist, att, status>>

MCInit == /\ P \in [s : {3, 6}, p : {0, 2}, e : {0, 1}, x : {0, 2}]
          /\ nfev = 1 /\ nfs = 0 /\ hist = <<>> /\ att = <<>> /\ status = "idle"
Live == nfs + Len(hist) < MaxEv
Begin == status = "idle" /\ Live /\ status' = "try" /\ att' = <<>> /\ UNCHANGED <<P, nfev, nfs, hist>>
Pre == /\ status = "try" /\ P.p > 0 /\ Live
       /\ nfev' = nfev + P.p /\ nfs' = nfs + 1 /\ att' = Append(att, "pre") /\ UNCHANGED <<P, hist, status>>
Rej == /\ status = "try" /\ Live
       /\ nfev' = nfev + P.s /\ nfs' = nfs + 1 /\ att' = Append(att, "full") /\ UNCHANGED <<P, hist, status>>
Acc == /\ status = "try"
       /\ nfev' = nfev + P.s + P.e /\ hist' = Append(hist, <<"step", Append(att, "full")>>)
       /\ att' = <<>> /\ status' = "idle" /\ UNCHANGED <<P, nfs>>
Dns == /\ status = "idle" /\ Live /\ hist # <<>>
       /\ nfev' = nfev + P.x /\ hist' = Append(hist, <<"dense", <<>>>>) /\ UNCHANGED <<P, nfs, att, status>>
MCNext == Begin \/ Pre \/ Rej \/ Acc \/ Dns

RECURSIVE Total(_)
Total(h) == IF h = <<>> THEN 0
            ELSE Total(Tail(h)) + (IF Head(h)[1] = "dense" THEN P.x ELSE Sum(Head(h)[2], P) + P.e)
RECURSIVE Rejs(_)
Rejs(h) == IF h = <<>> THEN 0 ELSE Rejs(Tail(h)) + (IF Head(h)[1] = "dense" THEN 0 ELSE Len(Head(h)[2]) - 1)
Truthful == /\ nfev = 1 + Total(hist) + Sum(att, P)
            /\ nfs = Rejs(hist) + Len(att)
(* the cost of a step only depends on how many attempts of each kind it took *)
Count(a, k) == Len(SelectSeq(a, LAMBDA z : z = k))
ByCount == \A i \in 1 .. Len(hist) : hist[i][1] = "step" =>
    Sum(hist[i][2], P) + P.e = StepCost(P, Count(hist[i][2], "full"), Count(hist[i][2], "pre"), TRUE)
=============================================================================
