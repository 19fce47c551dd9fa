------------------------------ MODULE StepLife ------------------------------
(* The life of an integration, for every solver: the interval is 0 .. N ticks (in the direction of integration), the
   environment may make the right-hand side useless from tick Bad on, accept or reject any attempt, and propose any
   next step size the controller could.  One action per observable event of the real solvers.                      *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS N, MaxStep, FirstStep, MinStep, Growth

VARIABLES t, h, phase, status, bad, tries, lastTry, start
vars == <<t, h, phase, status, bad, tries, lastTry, start>>

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b

Init == /\ t = 0 /\ phase = "idle" /\ tries = 0 /\ lastTry = 0 /\ start = 0
        /\ h \in 1 .. Mn(FirstStep, Mn(N, MaxStep))
        /\ bad \in 1 .. (N + 2)                        \* N + 1 and more: never
        /\ status = "running"

Left == N - t
(* size of the first attempt of a step: limits, then the look-ahead rule near the end *)
Sized(x) == LET y == Mn(MaxStep, Mx(MinStep, x)) IN
            IF Left <= y THEN Left ELSE IF Left < 2 * y THEN Mx((Left + 1) \div 2, 1) ELSE y

Begin == /\ status = "running" /\ phase = "idle"
         /\ phase' = "try" /\ h' = Sized(h) /\ tries' = 0 /\ lastTry' = 0 /\ start' = t
         /\ UNCHANGED <<t, status, bad>>

Accept == /\ phase = "try" /\ t + h < bad /\ h >= Mn(MinStep, Left)
          /\ t' = t + h /\ phase' = "idle"
          /\ status' = IF t + h = N THEN "finished" ELSE "running"
          /\ h' \in 1 .. (IF tries > 0 THEN h ELSE Growth * h)
          /\ tries' = tries + 1 /\ lastTry' = h
          /\ UNCHANGED <<bad, start>>

Reject == /\ phase = "try" /\ h >= Mn(MinStep, Left)
          /\ h > 1
          /\ h' \in 1 .. (h - 1)
          /\ tries' = tries + 1 /\ lastTry' = h
          /\ UNCHANGED <<t, phase, status, bad, start>>

(* an attempt that can shrink no further, one whose size is below the minimum, or one that met a useless value *)
Fail == /\ phase = "try" /\ (h < Mn(MinStep, Left) \/ h = 1 \/ t + h >= bad)
        /\ status' = "failed" /\ phase' = "idle"
        /\ UNCHANGED <<t, h, bad, tries, lastTry, start>>

Next == Begin \/ Accept \/ Reject \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin) /\ WF_vars(Accept \/ Reject \/ Fail)

Inside == t \in 0 .. N
Truthful == /\ (status = "finished") = (t = N)
            /\ status = "failed" => t = start /\ t < N
Limits == phase = "try" => h <= MaxStep /\ h <= Left
First == (t = 0 /\ phase = "try") => h <= FirstStep
NeverPastBad == t < bad \/ t = 0
Shrinks == (phase = "try" /\ tries > 0) => h < lastTry
Forward == [][t' >= t]_vars
Advance == [][(phase = "try" /\ phase' = "idle" /\ status' # "failed") => t' > t]_vars
Frozen == [][status # "running" => UNCHANGED <<t, status>>]_vars
Ends == <>(status # "running")
NoHope == (bad <= N) => []~(status = "finished")
=============================================================================
