---------------------------- MODULE DaeAlgebra ----------------------------
(* The linear algebra of a problem M y' = J y + c t + d with two unknowns and one algebraic equation, over the field with P
   elements, where it is exact: M = U diag(s, 0) V^T with orthogonal U, V.  The formulas by which the solver corrects the
   initial values, finds the initial slope, reduces the problem to an ODE, solves a stage and filters the error estimate are
   checked against what defines them.                                                                                    *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS P, Us, Vs, Ss, Cs, Ys
F == 0 .. P - 1
N(x) == x % P
Inv(x) == CHOOSE q \in 1 .. P - 1 : N(q*x) = 1
Div(a, b) == N(a*Inv(b))
Vec(a, b) == <<N(a), N(b)>>
Mat(a, b, c, d) == <<Vec(a, b), Vec(c, d)>>
Mv(A, x) == Vec(A[1][1]*x[1] + A[1][2]*x[2], A[2][1]*x[1] + A[2][2]*x[2])
T(A) == <<<<A[1][1], A[2][1]>>, <<A[1][2], A[2][2]>>>>
Mm(A, B) == LET a == Mv(A, T(B)[1])
                b == Mv(A, T(B)[2]) IN <<<<a[1], b[1]>>, <<a[2], b[2]>>>>
Add(x, y) == Vec(x[1] + y[1], x[2] + y[2])
Sub(x, y) == Vec(x[1] - y[1], x[2] - y[2])
Det(A) == N(A[1][1]*A[2][2] - A[1][2]*A[2][1])
Msub(A, B) == <<Sub(A[1], B[1]), Sub(A[2], B[2])>>
Sca(k, A) == <<Vec(k*A[1][1], k*A[1][2]), Vec(k*A[2][1], k*A[2][2])>>
Solve(A, b) == LET w == Inv(Det(A)) IN Vec(w*(A[2][2]*b[1] - A[1][2]*b[2]), w*(A[1][1]*b[2] - A[2][1]*b[1]))
Rot(a, b) == Mat(a, b, -b, a)
Orthogonal == {A \in {Rot(a, b) : a \in F, b \in F} \cup {Mat(a, b, b, -a) : a \in F, b \in F} : Mm(T(A), A) = Mat(1, 0, 0, 1)}

VARIABLES U, V, s, J, c, d, y, ph
vars == <<U, V, s, J, c, d, y, ph>>
M == Mm(U, Mm(Mat(s, 0, 0, 0), T(V)))
G == Mm(T(U), Mm(J, V))
Index1 == G[2][2] # 0
f(q) == Add(Mv(J, q), d)                \* at t = 0
g(q) == Mv(T(U), f(q))
gdot == Mv(T(U), c)

(* the formulas of the solver *)
Corrected == LET v == Mv(T(V), y) IN Mv(V, Vec(v[1], v[2] - Div(g(y)[2], G[2][2])))
udot == Div(g(y)[1], s)
vdot == N(-Div(gdot[2] + G[2][1]*udot, G[2][2]))
Slope == Mv(V, <<udot, vdot>>)
Sred == N(G[1][2]*Div(G[2][1], G[2][2]))
Jr == Div(N(G[1][1] - Sred), s)
Tr == Div(N(gdot[1] - G[1][2]*Div(gdot[2], G[2][2])), s)

Init == /\ U \in Us /\ V \in Vs /\ s \in Ss /\ c \in Cs /\ y \in Ys
        /\ J \in {Mat(a, b, e, q) : a \in F, b \in F, e \in F, q \in F}
        /\ d = <<1, 2>>
        /\ ph = "given"
Correct == /\ ph = "given" /\ Index1
           /\ y' = Corrected /\ ph' = "corrected"
           /\ UNCHANGED <<U, V, s, J, c, d>>
Next == Correct
Spec == Init /\ [][Next]_vars

(* the correction leaves M y alone and solves the algebraic equation; it is the only one that does *)
CorrectionRight == ph = "given" /\ Index1 =>
    /\ Mv(M, Corrected) = Mv(M, y) /\ g(Corrected)[2] = 0
    /\ \A q \in {<<a, b>> : a \in F, b \in F} : Mv(M, q) = Mv(M, y) /\ g(q)[2] = 0 => q = Corrected
(* the slope solves the differential equations and the differentiated algebraic one; it is the only one that does *)
Defines(q) == Mv(M, q) = f(y) /\ Mv(T(U), Add(Mv(J, q), c))[2] = 0
SlopeRight == ph = "corrected" => Defines(Slope) /\ \A a \in F, b \in F : Defines(<<a, b>>) => <<a, b>> = Slope
(* the second derivative of the differential part, from the reduced problem and from the full one *)
ReducedRight == ph = "corrected" => N(s*(Jr*udot + Tr)) = Mv(T(U), Add(Mv(J, Slope), c))[1]
(* the stage equation is solvable for some step sizes exactly for index 1; scaling the algebraic row of the projected system
   does not change its solution; the filtered error estimate does not depend on the units of the equations *)
W(h, D) == Mm(D, Msub(M, Sca(h, J)))
Scaling(h) == Mm(U, Mm(Mat(1, 0, 0, Inv(h)), T(U)))
Filter(h, D, e) == Solve(W(h, D), Mv(Mm(D, M), e))
StageRight == ph = "corrected" => \A h \in 1 .. 2 : Det(W(h, Mat(1, 0, 0, 1))) # 0 =>
    /\ \A e \in {<<1, 0>>, <<2, 1>>} : Solve(Mm(Scaling(h), W(h, Mat(1, 0, 0, 1))), Mv(Scaling(h), e)) = Solve(W(h, Mat(1, 0, 0, 1)), e)
    /\ \A D \in {Mat(1, 0, 0, 2), Mat(3, 0, 0, 1), Mat(1, 1, 0, 1)} : \A e \in {<<1, 0>>, <<2, 1>>} : Det(D) # 0 =>
         Filter(h, D, e) = Filter(h, Mat(1, 0, 0, 1), e)
(* index 1 is a property of the problem, not of the chosen U and V: the algebraic equation determines the algebraic unknown *)
Regular == Index1 <=> \E h \in {0} : LET w == Mv(U, <<0, 1>>)  z == Mv(V, <<0, 1>>) IN N(w[1]*Mv(J, z)[1] + w[2]*Mv(J, z)[2]) # 0
=============================================================================
