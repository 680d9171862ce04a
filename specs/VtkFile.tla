------------------------------- MODULE VtkFile -------------------------------
(* What a VTK file of an unstructured grid has to be, and what the files of a model have to contain.                *)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == { q[i] : i \in 1..Len(q) }
CellTypeOf(k) == CASE k = 1 -> 1 [] k = 3 -> 5 [] k = 8 -> 12 [] OTHER -> 0
RECURSIVE CellsSize(_, _)
CellsSize(c, k) == IF k > Len(c) THEN 0 ELSE 1 + Len(c[k]) + CellsSize(c, k + 1)
\* r = << np, nc, csize, nt, pd, cells, types, rest >> of a file; corners = points per cell
WellFormed(r, corners) == UNION {
    IF r.ok = 1 /\ r.rest = 0 THEN {} ELSE {"vtk-structure"},
    IF Len(r.cells) = r.nc /\ r.csize = CellsSize(r.cells, 1) THEN {} ELSE {"vtk-cells-size"},
    IF \A c \in Range(r.cells) : Len(c) = corners /\ \A i \in Range(c) : i >= 0 /\ i < r.np THEN {} ELSE {"vtk-indices"},
    \* every point belongs to exactly one corner of one cell
    IF r.np = corners * r.nc /\ Cardinality(UNION { Range(c) : c \in Range(r.cells) }) = r.np THEN {} ELSE {"vtk-points"},
    IF r.nt = r.nc /\ Len(r.types) = r.nc /\ \A t \in Range(r.types) : t = CellTypeOf(corners) THEN {} ELSE {"vtk-cell-types"} }

\* the corners of a cell of the grid in the order of VTK_HEXAHEDRON
Hexa(lo, U) == << << lo[1], lo[2], lo[3] >>, << lo[1] + U, lo[2], lo[3] >>, << lo[1] + U, lo[2] + U, lo[3] >>, << lo[1], lo[2] + U, lo[3] >>,
                  << lo[1], lo[2], lo[3] + U >>, << lo[1] + U, lo[2], lo[3] + U >>, << lo[1] + U, lo[2] + U, lo[3] + U >>, << lo[1], lo[2] + U, lo[3] + U >> >>
\* the files of a model in its output directory
FilesOf(write, ids) == IF write THEN {"out/elements.vtk", "out/integration_points.vtk", "out/model_info.json"}
                                     \cup { "out/condition_id_" \o ids[k] \o ".stl" : k \in 1..Len(ids) }
                       ELSE {}
=============================================================================
