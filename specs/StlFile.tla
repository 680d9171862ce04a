------------------------------- MODULE StlFile -------------------------------
(* What reading an STL file may yield, given the triangles T that were written into it and the damage it suffered.  *)
(* A triangle is a sequence of three corners; corners are compared by value only.                                   *)
EXTENDS Integers, Sequences

IsPrefix(M, T) == Len(M) <= Len(T) /\ \A i \in 1..Len(M) : M[i] = T[i]
\* M is T with one triangle altered
OneAltered(M, T) == Len(M) = Len(T) /\ \E k \in 1..Len(T) : \A i \in 1..Len(T) : i = k \/ M[i] = T[i]
Skip(i, k) == IF i < k THEN i ELSE i + 1
OneMissing(M, T) == Len(M) + 1 = Len(T) /\ \E k \in 1..Len(T) : \A i \in 1..Len(M) : M[i] = T[Skip(i, k)]
\* the meshes a file may be read as, by kind of damage; refusing a damaged file is always allowed
MayRead(kind, T, M) == CASE kind = "none" -> M = T
                         [] kind = "trunc" -> IsPrefix(M, T)
                         [] OTHER -> M = T \/ IsPrefix(M, T) \/ OneAltered(M, T) \/ OneMissing(M, T)
MayRefuse(kind) == kind # "none"
=============================================================================
