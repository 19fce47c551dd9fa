------------------------------- MODULE MCSwag -------------------------------
(* Exhaustive exploration of the order and step size selection of SWAG with estimates from a finite set of classes;
   sizes are kept relative to the last attempt.                                                                     *)
EXTENDS SwagControl, TLC

CONSTANTS KMax, Rich
Vs == IF Rich THEN {-20 * U, -6 * U, -3 * U, -13000, 3000, 3 * U} ELSE {-20 * U, -3 * U, -13000, 3 * U}

VARIABLES b, n, last
vars == <<b, n, last>>
Init == b = SwagStart(Iv(0)) /\ n = 0 /\ last = [acc |-> TRUE, k |-> 1, f |-> 0, ph |-> TRUE, n |-> 0, ns |-> 0]

Data(x, y, z, r) ==
    [S |-> [i \in 1 .. KMax + 2 |-> Iv(IF i = b.k + 1 THEN z ELSE IF i = b.k THEN y ELSE x)],
     R |-> [i \in 1 .. KMax + 1 |-> Iv(r)], nan |-> FALSE, inf |-> FALSE]
Norm(x) == [x EXCEPT !.h = Iv(0), !.ns = Mn(x.ns, KMax + 1)]

Accept == \E x, y, z, r \in Vs, kept \in {b.kp /\ n = 0, FALSE} :
            \E c \in SwagAccepted(b, Data(x, y, z, r), Iv(0), KMax, NsOf(b, kept), FALSE, Iv(-INF), 0) :
              /\ b' = Norm(c) /\ n' = 0
              /\ last' = [acc |-> TRUE, k |-> b.k, f |-> c.h[2], ph |-> b.ph, n |-> n, ns |-> c.ns]
Fail == \E x, y, z \in Vs : n < 6 /\
            \E c \in SwagFailed(b, Data(x, y, z, 0), Iv(0), n + 1, 0) :
              /\ b' = Norm(c) /\ n' = n + 1
              /\ last' = [acc |-> FALSE, k |-> b.k, f |-> c.h[2], ph |-> b.ph, n |-> n + 1, ns |-> 0]
Next == Accept \/ Fail

OrderBounds == b.k \in 1 .. KMax /\ b.kold \in 0 .. KMax
OrderChange == last.acc => b.k - last.k \in {-1, 0, 1}
FailLowers == ~last.acc => (b.k \in {last.k, last.k - 1} \/ b.k = 1)
ThirdResets == (~last.acc /\ last.n >= 3) => b.k = 1
FailHalves == ~last.acc => last.f <= Half /\ (last.n < 4 => last.f = Half)
AcceptFactor == last.acc => last.f \in {0, U} \/ (last.f >= Half /\ last.f <= Nine)
Phase1 == (last.acc /\ b.ph /\ b.kold > 0) => b.k = last.k + 1 /\ last.f = U
RaiseNeedsEqualSteps == (last.acc /\ b.k > last.k /\ ~b.ph) => last.ns > last.k
NsCap == b.ns <= KMax + 1
Phase1Ends == [][b'.ph => b.ph]_vars
Equal == last.acc /\ b.kp => last.f = 0
TotalD == \A x, y, z \in Vs : Cardinality(KNew(b, Data(x, y, z, 0), 0)) = 1
=============================================================================
