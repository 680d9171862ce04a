-------------------------------- MODULE BigFile --------------------------------
(* Files of more bytes than the buffer of the writer, of meshes and grids given by a rule.                            *)
EXTENDS Integers

\* a grid of k x k x k cells: no element in every 7th one; cell i has i mod 3 + 1 points
BgElems(N) == N - N \div 7
RECURSIVE BgSum(_, _)
BgSum(a, b) == IF a > b THEN 0 ELSE IF a = b THEN (IF a % 7 = 0 THEN 0 ELSE (a % 3) + 1)
               ELSE LET m == (a + b) \div 2 IN BgSum(a, m) + BgSum(m + 1, b)
BigVerdict(s, o) ==
    LET N == s.k * s.k * s.k
    IN UNION {
        IF o.ok = 1 /\ o.bad = 0 THEN {} ELSE {"structure"},
        IF o.n = (CASE s.what = "elements" -> BgElems(N) [] s.what = "points" -> BgSum(1, N) [] OTHER -> 2 * s.k * s.k) THEN {} ELSE {"count"},
        IF o.differ = 0 THEN {} ELSE {"values"},
        IF o.np = (CASE s.what = "vtk" -> 3 * o.n [] s.what = "elements" -> 8 * o.n [] OTHER -> o.n) THEN {} ELSE {"points"},
        IF s.what \in {"stl", "vtk"} => (o.back = 0 /\ o.nv = (s.k + 1) * (s.k + 1)) THEN {} ELSE {"read-back"},
        IF s.what = "stl" /\ s.enc = "binary" => o.size = 84 + 50 * o.n THEN {} ELSE {"size"} }
=============================================================================
