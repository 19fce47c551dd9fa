---------------------------- MODULE Sensitivity ----------------------------
(* Sensitivities of an initial value problem.

   Part 1, the algebra.  A solution is carried over N steps; step k is linear in the deviations,
        s(k+1) = A(k) s(k) + B(k)         s: derivative of the state (ny) to one parameter
   and a functional of it is accumulated,
        q(k+1) = q(k) + gy(k).s(k) + gp(k)     (the integral of g)      or      hy.s(N) + hp      (g of the end state).
   The adjoint recursion runs backward from the end,
        m(k) = A(k)^T m(k+1) [+ gy(k)]         x(k) = x(k+1) + m(k+1).B(k) [+ gp(k)]
   and m(0).s(0) + x(0) is the derivative of the functional: at each k, m(k).s(k) + x(k) is what is still to come.
   Arithmetic is exact, modulo the prime P.

   Part 2, the protocol of a call.  The arguments are tested first; then one solve forward (none if the solution is given),
   then, for the adjoint methods, one backward over the reversed interval; a solve that fails ends the call with an error and
   no later solve is made.                                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, Ny, N

F == 0 .. P - 1
Md(x) == x % P
Vecs == IF Ny = 1 THEN {<<a>> : a \in F} ELSE {<<a, b>> : a \in F, b \in F}
Mats == IF Ny = 1 THEN {<<r>> : r \in Vecs} ELSE {<<a, b>> : a \in Vecs, b \in Vecs}
Dot(a, b) == Md(IF Ny = 1 THEN a[1]*b[1] ELSE a[1]*b[1] + a[2]*b[2])
Mv(A, x) == IF Ny = 1 THEN <<Dot(A[1], x)>> ELSE <<Dot(A[1], x), Dot(A[2], x)>>
Tr(A) == IF Ny = 1 THEN A ELSE <<<<A[1][1], A[2][1]>>, <<A[1][2], A[2][2]>>>>
Plus(a, b) == IF Ny = 1 THEN <<Md(a[1] + b[1])>> ELSE <<Md(a[1] + b[1]), Md(a[2] + b[2])>>
Zero == IF Ny = 1 THEN <<0>> ELSE <<0, 0>>

\* ---------------------------------------------------------------- part 2: the protocol
Fns == {"forward", "end", "int"}
Flaws == {"none", "y0ndim", "y0dtype", "s0ndim", "s0shape", "pdtype", "nosol", "funcall", "fundim", "funshape", "jacshape", "dfdpdim",
          "dfdpshape", "gdim", "gshape", "dgdyshape", "dgdpshape", "rtoltype", "atolshape", "teval"}
Has(fn, w) == CASE w \in {"nosol", "pdtype", "gdim", "gshape", "dgdyshape", "dgdpshape"} -> fn # "forward"
                [] w \in {"rtoltype", "atolshape", "teval"} -> fn = "forward"
                [] OTHER -> TRUE
Refused(fn, w) == w # "none"
Solves(fn, given) == (IF given THEN <<>> ELSE <<"fw">>) \o (IF fn = "forward" THEN <<>> ELSE <<"bw">>)
=============================================================================
