#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line, schema /root/.vp/PROPERTIES.schema.json)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every cell is classified as the geometry says",
 "For a closed, orientable triangulated solid and any background grid, each grid cell is classified inside exactly when it lies completely in the solid, outside exactly when it shares no volume with the solid, and trimmed otherwise. This also holds when surface facets lie exactly on cell boundaries, when the solid extends beyond the grid or is enclosed by it, when it has several components, cavities or through-holes, and for anisotropic cells, non-zero grid origins and grids with one cell in a direction. The elements a model creates agree with that classification: an untrimmed element for every inside cell, a trimmed element only for trimmed cells and none for outside cells.",
 ["inputs","configurations"], "all closed meshes x all grids (bounds, numbers of cells) whose geometric features are not smaller than a small fraction of a cell",
 "Tests compare counts for a handful of STL files and grids; they cannot reach every topology, every coincidence of facets with cell planes and every grid shape.",
 ["queso/embedding/flood_fill.cpp","queso/embedding/brep_operator.cpp","queso/embedding/clipper.cpp","queso/embedding/aabb_primitive.cpp","queso/embedding/aabb_tree.cpp","queso/embedding/geometry_query.cpp","queso/embedded_model.cpp"],
 [("flood fill over non-intersected cells with inside/outside votes","queso/embedding/flood_fill.cpp"),("triangle/box intersection test against the cell","queso/embedding/brep_operator.cpp"),("element creation by state","queso/embedded_model.cpp ComputeVolume")],
 observe=["BRepOperator::pGetElementClassifications","EmbeddedModel element views"])

prop("C02", "Results do not depend on the number of threads or the schedule",
 "For fixed inputs, the cell classification, the set of elements, the rules of full elements, the moments of trimmed rules up to their residual, the condition segments and the reported counts, areas and volumes of a model are the same for every number of threads and for every way the grid is divided among them; only the storage order may differ. Repeating the computation gives the same result.",
 ["schedules","inputs","configurations"], "all thread counts (including more threads than grid layers and one thread) x all meshes and grids x repeated runs",
 "Tests run with the default thread count of the machine and never compare runs; the partition merge is only exercised in the patterns the sample geometries produce.",
 ["queso/embedding/flood_fill.cpp","queso/embedded_model.cpp","queso/containers/background_grid.hpp"],
 [("partitioned fill and MergeGroups union of groups across partition boundaries","queso/embedding/flood_fill.cpp"),("critical section inserting elements","queso/containers/background_grid.hpp MakeElement"),("parallel element loop","queso/embedded_model.cpp")],
 state=[("groups","connected components of equal state per partition with their votes","queso/embedding/flood_fill.cpp")],
 observe=["BRepOperator::pGetElementClassifications","EmbeddedModel element views","Condition segments"])

prop("C03", "Point and box queries against the surface are exact",
 "For a closed mesh and any point that is not on its surface, the inside test is true exactly for points of the solid. For any box, the intersection test is true exactly if the surface passes through the interior of the box, and the state of a box is inside, outside or trimmed as the solid fills it completely, not at all or partly; touching the box boundary alone is not an intersection.",
 ["inputs"], "all closed meshes x all points off the surface x all axis-aligned boxes (ray directions that hit edges and vertices are handled by the code, not by the caller)",
 "Tests probe a few points of a few meshes; the hard cases are rays through edges or vertices, parallel facets and boxes that touch facets, which must work in every combination.",
 ["queso/embedding/brep_operator.cpp","queso/embedding/geometry_query.cpp","queso/embedding/ray_aabb_primitive.cpp","queso/embedding/aabb_primitive.cpp","queso/embedding/aabb_tree.cpp"],
 [("ray tracing with retry on ambiguous hits","queso/embedding/geometry_query.cpp IsInside"),("separating-axis triangle/box test","queso/embedding/aabb_primitive.cpp"),("AABB tree query","queso/embedding/aabb_tree.cpp")],
 observe=["BRepOperator::IsInside","BRepOperator::IsTrimmed","BRepOperator::GetIntersectionState"])

prop("T01", "Each trimmed cell's boundary encloses exactly solid-in-cell",
 "For a trimmed cell, the clipped surface together with the closing faces on the cell boundary forms a closed surface whose enclosed volume and first moments equal those of the solid intersected with the cell, whose facets all lie within the cell and whose normals point outward. The reported bounding box of that domain is contained in the cell and contains the domain, and the domain's inside test agrees with the solid inside the cell. With a requested minimum number of boundary triangles the boundary has at least that many, without any change to the surface it represents.",
 ["inputs","configurations"], "all closed meshes x all trimmed cells x minimum triangle counts",
 "The closing faces depend on how the surface cuts the six cell planes; tests look at few STL files and at totals with loose tolerances.",
 ["queso/embedding/trimmed_domain.cpp","queso/embedding/trimmed_domain.h","queso/embedding/trimmed_domain_on_plane.cpp","queso/embedding/clipper.cpp","queso/embedding/polygon.cpp","queso/embedding/brep_operator.cpp","queso/utilities/mesh_utilities.cpp"],
 [("closing of the clipped mesh on the six cell planes","queso/embedding/trimmed_domain_on_plane.cpp"),("clipping of triangles at the cell","queso/embedding/clipper.cpp"),("refinement of the closed mesh","queso/utilities/mesh_utilities.cpp Refine")],
 observe=["BRepOperator::pGetTrimmedDomain","TrimmedDomain::pGetBoundaryIps","TrimmedDomain::GetBoundingBoxOfTrimmedDomain"])

prop("Q01", "Trimmed-element quadrature is positive, interior and moment exact",
 "Every trimmed element carries at least one and at most the number of tensor Gauss points of the element, all with positive weights and located inside both the element and the solid. If the fit reached the requested residual, its rule integrates every monomial up to the polynomial order per direction over the solid part of the cell to the accuracy of that residual (moments beyond the degree of the surface rule, which only orders above three have, to the accuracy of the surface discretisation). The represented volume of the model is the sum over its elements.",
 ["inputs","configurations"], "all closed meshes x grids x polynomial orders 1..4 per direction x residual settings, for solid parts that are not slivers below the minimum volume ratio",
 "Point elimination and the non-negative fit take different paths for every shape; tests check volumes of a few shapes.",
 ["queso/quadrature/trimmed_element.hpp","queso/solvers/nnls.cpp","queso/embedding/octree.cpp","queso/utilities/polynomial_utilities.hpp","queso/embedding/element_builders.hpp"],
 [("moment fitting with non-negative least squares and point elimination","queso/quadrature/trimmed_element.hpp"),("point distribution by octree","queso/embedding/octree.h")],
 observe=["ElementView::GetIntegrationPoints","ModelInfo represented volume"])

prop("Q02", "Full elements carry the requested tensor Gauss rule exactly",
 "An untrimmed element has exactly the tensor-product points of the chosen rule (order+1 points per direction for Gauss, one fewer or two fewer for the reduced rules), strictly inside the element, with positive weights. The rule integrates every monomial up to degree 2n-1 per direction exactly, where n is the number of points in that direction, and the weights mapped to physical space sum to the cell volume. This holds for every order combination per direction and for both grid types with arbitrary parametric bounds.",
 ["inputs","configurations"], "all polynomial orders per direction supported by the tables x integration methods x grid types x physical and parametric bounds",
 "Tests use few isotropic orders; tables and index arithmetic of anisotropic orders are sampled only.",
 ["queso/quadrature/single_element.hpp","queso/quadrature/integration_points_1d/gauss_legendre_integration_points.cpp","queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp","queso/utilities/mapping_utilities.hpp"],
 [("tensor product assembly","queso/quadrature/single_element.hpp"),("1D Gauss tables and method switch","queso/quadrature/integration_points_1d")],
 observe=["ElementView::GetIntegrationPoints"])

prop("Q03", "Generalized Gaussian rules tile the full elements and stay exact",
 "With generalized Gaussian quadrature, all full elements together carry points with positive weights whose weights sum to the volume of the full region, every point lies in the element that stores it, and the combined rule integrates every spline of the grid's order (with the rule's continuity class) over the full region as exactly as element-wise Gauss quadrature. This holds for any pattern of full, trimmed and inactive cells, since the region is split into boxes that cover each full element exactly once. The one-dimensional rules exist for every supported order and every number of elements, with points inside the interval, and integrate the target space exactly.",
 ["inputs","configurations"], "all patterns of full cells x numbers of elements per direction x orders 2..4 x the three rule families",
 "Tests use a cantilever box and a tube; patterns with concave, isolated or boundary-touching regions and most rule lengths are not reached.",
 ["queso/quadrature/multiple_elements.hpp","queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp","queso/quadrature/integration_points_1d/precomputed_ggq_rules_optimal.cpp","queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced1.cpp","queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced2.cpp"],
 [("greedy box growth over full elements","queso/quadrature/multiple_elements.hpp"),("assembly of 1D rules for n elements","queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp")],
 observe=["ElementView::GetIntegrationPoints","IntegrationPointFactory1D::GetGGQ"])

prop("Q04", "The fictitious domain completes trimmed elements with factor alpha",
 "With a fictitious-domain factor alpha, every trimmed element additionally integrates the part of its cell outside the solid with weight factor alpha, by exactly those points of the cell's full Gauss rule that lie outside the solid, with alpha times their Gauss weight; all weights stay positive and all points stay in the cell. Cells that are fully inside or outside are unaffected and the solid part of the rule is the one computed without fictitious domain. The represented volume reported by the model refers to the same rule.",
 ["inputs","configurations"], "all closed meshes x grids x alpha in (0,1] x orders",
 "Tests cover one geometry and one alpha.",
 ["queso/embedding/element_builders.hpp","queso/embedded_model.cpp","queso/quadrature/trimmed_element.hpp"],
 [("second domain with flipped inside test","queso/embedding/element_builders.hpp")],
 observe=["ElementView::GetIntegrationPoints"])

prop("B01", "Conditions split their surface over the cells without loss or overlap",
 "For any condition surface, the parts stored in the grid cells lie within their cells and together have the area of the part of the surface inside the grid, cell by cell; nothing is lost or counted twice, also when facets lie on cell boundaries or on the boundary of the grid. Each part carries the surface's normal and knows whether its cell holds an active element, and the reported surface area and the percentage of the area in active cells agree with that. Integration points on the parts have weights that sum to the area of the part, lie on the surface and carry its normal.",
 ["inputs","configurations"], "all condition meshes (flat or curved, on or off cell planes, inside or crossing the grid) x grids x active-cell patterns",
 "Tests sum areas for a few surfaces; coincidence of facets with cell planes is a measure-zero case which CAD-aligned models hit all the time.",
 ["queso/embedded_model.cpp","queso/containers/condition.hpp","queso/containers/condition_segment.hpp","queso/containers/clipped_triangle_mesh.hpp","queso/containers/boundary_integration_point.hpp","queso/embedding/brep_operator.cpp","queso/utilities/triangle_utilities.hpp"],
 [("clipping per cell with half-open ownership of faces","queso/embedding/brep_operator.cpp ClipTriangleMeshUnique"),("segment creation per cell","queso/embedded_model.cpp ComputeCondition")],
 observe=["Condition segments","ConditionInfo","TriangleMesh integration points"])

prop("G01", "Grid indexing, cell bounds and traversal are mutually consistent",
 "Cell indices and index triples correspond one to one with x running fastest; the cell boxes in physical and parametric space tile the grid bounds without gaps or overlap, and for a finite-element grid every cell has the same parametric bounds. Stepping forward in a direction from the first cell visits every cell of the grid (or of a given partition) exactly once, signals the end of each line and of the grid exactly there, and stepping backward is its exact inverse. The mapping of an element between physical and parametric space maps its bounds onto each other and is inverse to its inverse.",
 ["inputs","configurations"], "all grid shapes and bounds, all partitions, all six directions, all start cells",
 "Tests traverse two or three shapes; line ends for degenerate directions (one cell) and partitions are not covered.",
 ["queso/containers/grid_indexer.hpp","queso/utilities/mapping_utilities.hpp","queso/containers/element_base.hpp","queso/containers/cell_domain.hpp"],
 [("index arithmetic and stepping","queso/containers/grid_indexer.hpp"),("space mapping","queso/utilities/mapping_utilities.hpp")],
 observe=["GridIndexer","ElementView bounds and mapping"])

prop("G02", "The element store is keyed by id, typed, and frozen once locked",
 "Elements can be added under distinct ids until the store is locked, and only afterwards looked up; adding after the lock, adding an id twice or looking up before the lock is refused and leaves the store unchanged. A lookup returns precisely the element that was stored under the id with its kind, or nothing if the id is absent or of the other kind; counts and iterations agree with what was added. Moving to the next element in a direction returns the neighbouring element with the right id, reports an end at grid line ends and at missing elements, and addresses of elements stay valid after locking.",
 ["histories","schedules","inputs"], "all sequences of additions (also concurrent), locks and queries on all grid shapes and element patterns",
 "Tests exercise a few straight-line sequences.",
 ["queso/containers/background_grid.hpp","queso/containers/element_view.hpp","queso/containers/trimmed_element.hpp","queso/containers/untrimmed_element.hpp"],
 [("id map and lock flag","queso/containers/background_grid.hpp")],
 state=[("id map","element id to storage location","queso/containers/background_grid.hpp"),("locked","no additions after lock","queso/containers/background_grid.hpp")],
 observe=["BackgroundGrid public API"])

prop("M01", "Model information accounts for what was built",
 "After a volume was created, the reported numbers of active, trimmed, full and inactive elements, the numbers of points per kind, the represented volume and the percentage of the geometry's volume agree with the elements of the model, and the reported volume and closedness of the embedded geometry with the mesh. After conditions were created, one record per condition exists in order with its id, area and active percentage. Totals equal the sums of their parts.",
 ["inputs","histories"], "all meshes x grids x settings x sequences of conditions",
 "Tests check isolated values for one or two models.",
 ["queso/embedded_model.cpp","queso/includes/register_keys.hpp"],
 [("info written at the end of volume and condition creation","queso/embedded_model.cpp")],
 observe=["EmbeddedModel::GetInfo"])

prop("S01", "Model operations compose: any history gives the same model as settings",
 "Creating the volume and the conditions one by one, in any admissible order, gives the same elements, segments and information as creating everything from the settings and files. The input meshes and settings handed in are not changed, elements created earlier stay valid while conditions are added, and an operation that is refused (volume created twice, missing volume, invalid settings) raises an error without corrupting the model. Accumulated timing information equals the sum of its parts after any history of operations.",
 ["histories","inputs"], "all operation histories up to a bound over volume creation, condition creation, writing, and creation from settings",
 "Tests run single histories.",
 ["queso/embedded_model.cpp","queso/embedded_model.h"],
 [("operations on the model","queso/embedded_model.cpp")],
 observe=["EmbeddedModel public API"])

prop("D01", "Settings dictionaries are typed key-value stores",
 "A value set under a key is returned unchanged by every access path (enum key, string key, typed getter), only for the type registered for that key, and setting one key never changes another. Reading an unset value, an unknown key, a wrong type, or a key of another dictionary is refused with an error and leaves the dictionary unchanged; is-set answers, required-value checks and defaults follow the history of sets exactly. Lists of sub-dictionaries keep insertion order and are independent of one another.",
 ["histories","inputs"], "all sequences of set/get/is-set/check/append operations over all registered dictionaries and keys",
 "Tests check a few keys in fixed order.",
 ["queso/containers/dictionary.hpp","queso/containers/data_set.hpp","queso/includes/keys.hpp","queso/includes/register_keys.hpp","queso/includes/dictionary_factory.hpp"],
 [("variant storage with key/type traits","queso/containers/data_set.hpp"),("registered keys and factory","queso/includes/dictionary_factory.hpp")],
 observe=["Dictionary, DataSet, DictionaryStringAccess API"])

prop("D02", "Settings survive a round trip through JSON",
 "Writing any valid settings dictionary (values set or unset, zero or more conditions, every value type) produces well-formed JSON, and reading that JSON back gives a dictionary with the same set values (real numbers to the ten significant digits that are written), the same unset keys and the same list of conditions. Unknown keys and wrongly typed values in a JSON file are refused with an error.",
 ["inputs"], "all settings dictionaries and all single corruptions of their JSON",
 "Tests read fixed files and never round-trip generated dictionaries.",
 ["queso/io/io_utilities.cpp","queso/python/scripts/json_io.py","queso/containers/dictionary.hpp"],
 [("JSON writer of dictionaries","queso/containers/dictionary.hpp PrintJSON"),("JSON reader","queso/python/scripts/json_io.py")],
 observe=["IO::WriteDictionaryToJSON","JsonIO.ReadSettings"])

prop("D03", "Invalid settings are refused, valid ones are accepted",
 "A model is created from settings exactly when all required values are given and the combination is admissible: polynomial orders of at least one (at least two for the rules reduced by two), and generalized rules only on spline grids with every order between two and four. Every other combination is refused with an error before any element is built; omitted optional values take their documented defaults.",
 ["configurations"], "all combinations of grid type, integration method, polynomial orders, and presence of each required value",
 "Tests check some rejections; the decision table has thousands of rows.",
 ["queso/embedded_model.cpp","queso/utilities/check_dictionary_utilities.hpp","queso/includes/register_keys.hpp"],
 [("settings check at construction","queso/embedded_model.cpp CheckSettings"),("required-value check","queso/utilities/check_dictionary_utilities.hpp")],
 observe=["EmbeddedModel::Create"])

prop("I01", "STL files round trip and damaged files are refused",
 "Writing any mesh to an STL file (ASCII or binary) and reading it back gives the same triangles in the same order with the same orientation, with vertices merged consistently and coordinates equal to single precision; reading ASCII and binary versions of one mesh gives the same mesh, whatever the name of the solid, the header, the stored normals, the indentation, the line ends or the number format. A truncated or damaged file is refused with an error or read as a mesh of complete, valid triangles; it never crashes, never hangs and never yields indices out of range.",
 ["inputs","fault_sequences"], "all meshes x formats x truncation points and single-byte damage",
 "Tests read a few good files.",
 ["queso/io/io_utilities.cpp","queso/io/io_utilities.h","queso/containers/triangle_mesh.hpp"],
 [("format detection and parsers","queso/io/io_utilities.cpp")],
 observe=["IO::ReadMeshFromSTL","IO::WriteMeshToSTL"])

prop("I02", "Written output files represent the model",
 "The VTK and STL files written for meshes, elements, points and conditions contain exactly the entities of the model, with matching counts, indices in range, and coordinates, weights and cell types equal to those in memory, in ASCII and in binary form alike. Writing a model creates the documented set of files in the output directory and nothing when output is switched off. A file that cannot be written is reported as an error.",
 ["inputs","configurations"], "all models x encodings x output settings",
 "Tests do not parse the written files back.",
 ["queso/io/io_utilities.cpp","queso/io/io_utilities.tpp","queso/io/binary_buffer_writer.hpp","queso/embedded_model.cpp"],
 [("VTK and STL writers","queso/io/io_utilities.tpp"),("file set per model","queso/embedded_model.cpp WriteModelToFile")],
 observe=["files written"])

prop("O01", "Octree leaves partition the active part of a trimmed cell",
 "Refining a trimmed cell between a minimum and a maximum level gives leaves that cover every part of the solid in the cell exactly once; boxes that do not meet the solid are dropped, cut leaves are at the maximum level and uncut leaves at least at the minimum level. The points distributed over the leaves are all inside the solid, and the sum of their weights over uncut leaves equals the volume of those leaves. Refining again with higher levels gives the same tree as refining once, refining with lower levels changes nothing, and the levels the octree reports are those it reached.",
 ["inputs","histories"], "all trimmed cells x refinement level pairs x sequences of refinements x orders",
 "Tests refine two shapes and compare counts.",
 ["queso/embedding/octree.h","queso/embedding/octree.cpp","queso/embedding/trimmed_domain.cpp"],
 [("recursive subdivision by state","queso/embedding/octree.cpp")],
 observe=["Octree public API"])

prop("K01", "Mesh operations preserve the surface they work on",
 "Appending, refining, copying, and viewing a triangle mesh preserve geometry: area, enclosed volume, bounding box, orientation and closedness of the result follow from those of the operands, vertex indices stay in range and earlier triangles keep their order. Parallel and serial area and volume agree. Meshes and clipped meshes shown through a view return the same vertices, normals, areas, centres and integration points as the mesh itself.",
 ["histories","inputs"], "all meshes x sequences of add/append/refine/clear/copy operations",
 "Tests use a few meshes and single operations.",
 ["queso/containers/triangle_mesh.hpp","queso/containers/triangle_mesh_view.hpp","queso/containers/clipped_triangle_mesh.hpp","queso/utilities/mesh_utilities.cpp","queso/utilities/triangle_utilities.hpp","queso/utilities/triangle_gauss_legendre_integration_points.hpp"],
 [("mesh operations","queso/utilities/mesh_utilities.cpp")],
 observe=["TriangleMesh, TriangleMeshView, MeshUtilities API"])

prop("V01", "The spline volume fits the grid it is built from",
 "The spline volume built for a grid has, per direction, an open knot vector with the requested number of spans and order in the parametric bounds of the grid, and as many control points as knots allow. Its control points reproduce the geometric mapping of the grid: evaluating the volume at a parametric point gives the physical point that the grid's linear map gives.",
 ["inputs","configurations"], "all grids (bounds, spans, orders)",
 "Tests compare one fixed configuration.",
 ["queso/python/scripts/b_spline_volume.py"],
 [("Greville abscissae as control points","queso/python/scripts/b_spline_volume.py")],
 observe=["BSplineVolume"])

prop("P01", "The Python interface shows the same model as the C++ interface",
 "For the same settings and meshes, the Python classes expose the same elements, points, weights, conditions, segments and information as the C++ interface, and values passed from Python arrive unchanged. Objects handed out by a model (elements, points, conditions, meshes) stay usable while they are referenced. Accessing an element of a list or mesh beyond its end, or passing a wrong type, raises a Python exception and never crashes the interpreter.",
 ["inputs","histories"], "all models x all exposed accessors x index values in and out of range",
 "Python tests cover parts of the bindings on fixed models and never compare against the C++ side.",
 ["queso/python/bindings/add_containers_to_python.cpp","queso/python/bindings/add_dictionary_to_python.cpp","queso/python/PyQuESo.py"],
 [("pybind11 bindings","queso/python/bindings")],
 observe=["QuESoPythonModule","PyQuESo"])

prop("N01", "Non-negative least squares are solved to optimality",
 "For any matrix and right hand side of matching size, the non-negative least squares solver returns as many weights as there are columns, none of them negative and at most as many positive as there are equations, such that no other non-negative weights fit the right hand side better. The returned residual is the norm of right hand side minus matrix times these weights. This holds for square, overdetermined and underdetermined problems, whatever their scaling, and when columns are equal, zero or linearly dependent.",
 ["inputs"], "all matrices x right hand sides (sizes, ranks, scalings)",
 "Tests solve a few fixed well-conditioned problems.",
 ["queso/solvers/nnls.cpp","external_libraries/nnls/nnls_impl.h"],
 [("non-negative least squares","queso/solvers/nnls.cpp")],
 observe=["nnls::solve"])

prop("X01", "The finite element code is given what the model computed and the user asked for",
 "Through the Kratos interface, the model part receives one element for each model element with exactly its points of positive weight (elements without such a point are left out), and ids that are contiguous from 1. Each support condition gives one entity per non-degenerate triangle of its segments with its own prescribed value and penalty factor. A surface load applies modulus times area along the unit direction and a pressure load minus the pressure times the area along the outward normal, distributed over the triangles so that force and moments are those of the surface. A Dirichlet or Neumann box acts on exactly the nodes strictly inside it, and the total force is the one asked for. Conditions of an unknown type and surface loads without a direction are refused; a refused call leaves earlier content as it is; removing all elements or conditions removes them all and nothing else. Reading a triangle mesh into a model part and back gives the same triangles with the same orientation and vertices; entities that are no triangles, and unknown entity kinds, are refused. An analysis run by the Python interface uses a spline volume with the bounds, orders and number of spans of the grid, multiplier degrees of freedom exactly if a Lagrange condition exists, and an embedded model part equal to the input mesh; repeating it gives the same result, and asking for the analysis before it has run raises.",
 ["inputs","histories","configurations"], "all models x condition sets x sequences of add and remove operations x model parts",
 "The repository's tests of this interface need an installed Kratos and compare a few analyses; nothing tests what is handed over.",
 ["kratos_interface/model_part_utilities.py","kratos_interface/weak_bcs.py","kratos_interface/bounding_box_bcs.py","kratos_interface/kratos_analysis.py","kratos_interface/custom_analysis_stage.py","queso/python/PyQuESo.py","queso/python/scripts/helper.py"],
 [("conversion of elements, conditions and meshes","kratos_interface"),("set-up of the analysis","queso/python/PyQuESo.py RunKratosAnalysis")],
 observe=["model part contents through a recording stand-in for Kratos"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
