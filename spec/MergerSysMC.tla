----------------------------- MODULE MergerSysMC -----------------------------
(* Programs for MergerSys. *)
EXTENDS MergerSys
M(l) == <<"merge", l>>
A == <<"add">>
F == <<"fail">>
Small == << <<M(1)>>, <<A>>, <<M(1), M(1)>> >>
Two   == << <<M(1), M(2)>>, <<A, M(1)>>, <<M(1), A>> >>
Fails == << <<M(1), M(1)>>, <<A, F>>, <<F, M(1)>> >>
Four  == << <<M(1), M(1)>>, <<A, M(1)>>, <<M(1), F>>, <<A>> >>
==============================================================================
