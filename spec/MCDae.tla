------------------------------- MODULE MCDae -------------------------------
(* All problems, through all the transitions; the complete ones are printed for replay against the implementation *)
EXTENDS Dae, TLC
VARIABLES p, s
vars == <<p, s>>
Problems == {q \in [form : GoodForms \cup BadForms, nae : 0 .. 2, index : {1, 2}, start : Starts, units : Unit] : Sane(q)}
Init == /\ p \in Problems /\ s = Begin(p)
        /\ PrintT("ROW " \o ToString(p))
Next == s' \in Succ(p, s) /\ UNCHANGED p
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Final == s.at \in {"run", "refused"}
RightVerdict == Final => (s.at = "refused") = (Verdict(p) = "ValueError")
RightWarning == s.at = "run" => s.warned = Warns(p)
OnlyAlgebraic == "differential" \notin s.moved
MovedOnlyIfOff == s.moved # {} => p.start \in {"near", "off"}
NeverRunsInconsistent == s.at = "run" => (s.consistent \/ p.start = "near") /\ s.slope
UnitsDoNotMatter == \A u \in Unit : Sane([p EXCEPT !.units = u]) => Verdict([p EXCEPT !.units = u]) = Verdict(p) /\ Warns([p EXCEPT !.units = u]) = Warns(p)
Ends == <>Final
=============================================================================
