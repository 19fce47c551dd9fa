------------------------------ MODULE MCSens ------------------------------
(* Every linear problem of N steps over the field with P elements, and every course of a call. *)
EXTENDS Sensitivity
VARIABLES st, s, h, m, x, ml, xl, rest, todo, k,      \* st: "fw", "bw", "done"; h: the steps made
          fn, w, given, call, done                      \* the call
alg == <<st, s, h, m, x, ml, xl, rest, todo, k>>
proto == <<fn, w, given, call, done>>
vars == <<alg, proto>>
Idle == fn = "forward" /\ w = "none" /\ given = FALSE /\ call = "off" /\ done = <<>>
NoAlg == st = "off" /\ s = <<>> /\ h = <<>> /\ m = Zero /\ x = 0 /\ ml = Zero /\ xl = 0 /\ rest = 0 /\ todo = 0 /\ k = 0

InitAlg == /\ st = "fw" /\ s \in {<<v>> : v \in Vecs} /\ h = <<>> /\ m = Zero /\ x = 0 /\ ml = Zero /\ xl = 0 /\ rest = 0 /\ k = 0
           /\ todo = 0 /\ Idle
InitProto == /\ NoAlg /\ fn \in Fns /\ w \in Flaws /\ Has(fn, w) /\ given \in BOOLEAN /\ (given => fn # "forward") /\ (w = "nosol" => given)
             /\ call = "start" /\ done = <<>>
Init == InitAlg \/ InitProto

Forward == /\ st = "fw" /\ k < N
           /\ \E A \in Mats, B \in Vecs, gy \in Vecs, gp \in F :
                /\ h' = Append(h, [A |-> A, B |-> B, gy |-> gy, gp |-> gp])
                /\ s' = Append(s, Plus(Mv(A, s[k + 1]), B))
           /\ k' = k + 1
           /\ UNCHANGED <<st, m, x, ml, xl, rest, todo, proto>>
Turn == /\ st = "fw" /\ k = N
        /\ \E hy \in Vecs : m' = hy /\ todo' = Dot(hy, s[N + 1])       \* the function of the end state
        /\ st' = "bw"
        /\ UNCHANGED <<s, h, x, ml, xl, rest, k, proto>>
Backward == /\ st = "bw" /\ k > 0
            /\ LET o == h[k] IN
                 /\ m' = Mv(Tr(o.A), m) /\ x' = Md(x + Dot(m, o.B))
                 /\ ml' = Plus(Mv(Tr(o.A), ml), o.gy) /\ xl' = Md(xl + Dot(ml, o.B) + o.gp)
                 /\ rest' = Md(rest + Dot(o.gy, s[k]) + o.gp)
            /\ k' = k - 1
            /\ UNCHANGED <<st, s, h, todo, proto>>

Test == /\ call = "start" /\ call' = (IF Refused(fn, w) THEN "refused" ELSE "solving")
        /\ UNCHANGED <<alg, fn, w, given, done>>
Solve == /\ call = "solving" /\ Len(done) < Len(Solves(fn, given))
         /\ \E ok \in BOOLEAN : /\ done' = Append(done, <<Solves(fn, given)[Len(done) + 1], ok>>)
                                /\ call' = IF ok THEN "solving" ELSE "raised"
         /\ UNCHANGED <<alg, fn, w, given>>
Return == /\ call = "solving" /\ Len(done) = Len(Solves(fn, given)) /\ call' = "returned"
          /\ UNCHANGED <<alg, fn, w, given, done>>
Next == Forward \/ Turn \/ Backward \/ Test \/ Solve \/ Return
Spec == Init /\ [][Next]_vars

\* forward and adjoint agree, at each cut
EndRight == st = "bw" => Md(Dot(m, s[k + 1]) + x) = todo
IntRight == st = "bw" => Md(Dot(ml, s[k + 1]) + xl) = rest
\* nothing is returned after a failure, or without the solves; none after a refusal
NoBadReturn == call = "returned" => /\ \A i \in 1 .. Len(done) : done[i][2]
                                    /\ [i \in 1 .. Len(done) |-> done[i][1]] = Solves(fn, given)
                                    /\ w = "none"
OneFailure == \A i \in 1 .. Len(done) - 1 : done[i][2]
NoSolve == call = "refused" => done = <<>>
\* the rows replayed
Rows == (call = "start") => PrintT("ROW " \o fn \o " " \o w \o " " \o ToString(given))
=============================================================================
