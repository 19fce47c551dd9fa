----------------------------- MODULE MCNystrom -----------------------------
EXTENDS Nystrom, TLC
VARIABLES m, p, s
vars == <<m, p, s>>
Init == m \in Methods /\ p \in Problems /\ s = Begin /\ PrintT("ROW " \o m \o " " \o ToString(p))
Next == s' = Succ(m, p, s) /\ s' # s /\ UNCHANGED <<m, p>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Final == s.at \in {"accepted", "refused"}
Decides == Final => (s.at = "refused") = Refused(m, p)
(* every well-posed problem is accepted, by every method that can solve it *)
Complete == ~p.odd /\ p.first = "v" /\ (m \in Strict => p.accel \in {"pos", "const"}) => ~Refused(m, p)
Sound == ~Refused(m, p) => ~p.odd /\ p.first = "v"
Few == s.evals <= 3
(* how the values are represented does not matter *)
FormFree == \A f \in Forms : Refused(m, [p EXCEPT !.form = f]) = Refused(m, p)
Ends == <>Final
=============================================================================
