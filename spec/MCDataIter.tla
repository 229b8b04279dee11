----------------------------- MODULE MCDataIter -----------------------------
EXTENDS DataIter
Src(id, n, passes, epass, epos, bad) == [id |-> id, n |-> n, passes |-> passes, epass |-> epass, epos |-> epos, bad |-> bad]
A1 == << Src(1, 3, 2, 0, 0, FALSE), Src(2, 2, 1, 0, 0, FALSE) >>
A2 == << Src(1, 3, 2, 2, 2, FALSE), Src(2, 2, 1, 0, 0, FALSE) >>
A3 == << Src(1, 0, 2, 0, 0, FALSE), Src(2, 2, 0, 0, 0, FALSE), Src(3, 1, 1, 0, 0, TRUE), Src(4, 2, 1, 0, 0, FALSE) >>
A4 == << Src(1, 2, 1, 1, 1, FALSE), Src(2, 1, 2, 1, 2, FALSE), Src(3, 2, 1, 0, 0, FALSE) >>
=============================================================================
