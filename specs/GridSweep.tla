------------------------------- MODULE GridSweep -------------------------------
(* Sweeps over a box of cells: the relation between a step function and the lines of the box, and the order used by
   QuESo (a sweep in x runs x, y, z; in y: y, x, z; in z: z, x, y). *)
EXTENDS Integers, Sequences, FiniteSets

SAx == 1..3
\* cells of a partition lo..hi
PCells(lo, hi) == { << x, y, z >> : x \in lo[1]..hi[1], y \in lo[2]..hi[2], z \in lo[3]..hi[3] }
\* a sweep is given by nxt: cell -> <<cell, info>>, info: 0 middle, 1 end of a line, 2 end of the sweep
RECURSIVE Chain(_, _, _)
Chain(nxt, c, k) == IF k = 0 \/ nxt[c][2] = 2 THEN << c >> ELSE << c >> \o Chain(nxt, nxt[c][1], k - 1)
First(lo, hi, fwd) == IF fwd THEN lo ELSE hi
LineEnd(c, lo, hi, a, fwd) == c[a] = (IF fwd THEN hi[a] ELSE lo[a])
SweepClauses(nxt, lo, hi, a, fwd) ==
    LET P == PCells(lo, hi)
        w == Chain(nxt, First(lo, hi, fwd), Cardinality(P))
        last == w[Len(w)]
    IN UNION {
        IF \A c \in P : nxt[c][1] \in P THEN {} ELSE {"stays-in-partition"},
        IF Len(w) = Cardinality(P) /\ { w[k] : k \in 1..Len(w) } = P THEN {} ELSE {"visits-every-cell-once"},
        IF \A c \in P : (nxt[c][2] = 2) <=> (c = last) THEN {} ELSE {"global-end-at-the-last-cell"},
        IF \A c \in P : (nxt[c][2] = 0) <=> ~LineEnd(c, lo, hi, a, fwd) THEN {} ELSE {"line-end-exactly-there"},
        IF \A c \in P : nxt[c][2] = 0 => nxt[c][1] = [c EXCEPT ![a] = @ + (IF fwd THEN 1 ELSE -1)] THEN {} ELSE {"steps-along-the-line"},
        IF \A c \in P : nxt[c][2] = 1 => LineEnd(nxt[c][1], lo, hi, a, ~fwd) THEN {} ELSE {"line-starts-at-the-boundary"} }
\* backward is the inverse of forward
InverseClauses(f, b, lo, hi) ==
    LET P == PCells(lo, hi)
    IN IF \A c \in P : /\ (f[c][2] # 2 => b[f[c][1]] = << c, IF f[c][2] = 0 THEN 0 ELSE 1 >>)
                       /\ (b[c][2] # 2 => f[b[c][1]] = << c, IF b[c][2] = 0 THEN 0 ELSE 1 >>)
       THEN {} ELSE {"backward-inverts-forward"}

Order(a) == CASE a = 1 -> << 1, 2, 3 >> [] a = 2 -> << 2, 1, 3 >> [] a = 3 -> << 3, 1, 2 >>
\* the order of the implementation
StepOf(c, lo, hi, a, fwd) ==
    LET o == Order(a)
        e == IF fwd THEN hi ELSE lo
        s == IF fwd THEN lo ELSE hi
        d == IF fwd THEN 1 ELSE -1
    IN IF c[o[1]] # e[o[1]] THEN << [c EXCEPT ![o[1]] = @ + d], 0 >>
       ELSE IF c[o[2]] # e[o[2]] THEN << [c EXCEPT ![o[1]] = s[o[1]], ![o[2]] = @ + d], 1 >>
       ELSE IF c[o[3]] # e[o[3]] THEN << [c EXCEPT ![o[1]] = s[o[1]], ![o[2]] = s[o[2]], ![o[3]] = @ + d], 1 >>
       ELSE << c, 2 >>
=============================================================================
