--------------------------- MODULE MCDaeAlgebra ---------------------------
EXTENDS DaeAlgebra
UsQ == {Mat(1, 0, 0, 1), Mat(0, 1, 1, 0)}
VsQ == {Rot(0, 1)}
CsQ == {<<0, 0>>, <<1, 3>>}
YsQ == {<<1, 0>>, <<2, 3>>}
UsT == {Mat(1, 0, 0, 1), Rot(2, 2), Rot(0, 1), Mat(2, 2, 2, -2)}
VsT == {Mat(1, 0, 0, 1), Rot(2, 2), Rot(2, 5), Mat(0, 1, 1, 0)}
ASSUME UsT \cup VsT \subseteq Orthogonal \/ P # 7
ASSUME UsQ \cup VsQ \subseteq Orthogonal
=============================================================================
