------------------------------ MODULE IslEdit -------------------------------
(* Recorded histories of edits of, moves in and questions about schedule     *)
(* trees (C14) judged by the functions of IslTreeEdit.                       *)
EXTENDS IslJudge
TE == INSTANCE IslTreeEdit
Judgement(e, s, h) == TE!Admits(e, h)
Expected(e, s, h) == TE!Wanted(e, h)
=============================================================================
