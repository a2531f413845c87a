------------------------------- MODULE FoldK -------------------------------
(* Iterative left fold (CommunityModules), imported without the integer    *)
(* arithmetic that module RealK replaces.                                  *)
LOCAL INSTANCE SequencesExt
FoldL(op(_, _), base, seq) == FoldLeft(op, base, seq)
=============================================================================
