#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


GEO = "include/um2/geometry/"
prop("C01", "Element interpolation hits its nodes and its Jacobian is its derivative",
     "For every element kind (line segment, quadratic segment, triangle, quadrilateral, quadratic triangle, quadratic quadrilateral) and every spatial dimension it supports, evaluating the element at the parametric coordinates of a node returns that node, and evaluating it with collinear/affinely placed nodes reproduces the affine map. The Jacobian the element reports is the exact partial derivative of that evaluation at every parametric coordinate.",
     ["inputs"], "all vertex positions and all parametric coordinates, in exact arithmetic, for all 6 element kinds and dimensions 1-3",
     "The unit tests evaluate a handful of unit-sized elements at a few parameters; an error in one basis function that vanishes at those parameters or for straight edges is invisible.",
     [GEO + f for f in ["line_segment.hpp", "quadratic_segment.hpp", "triangle.hpp", "quadrilateral.hpp", "quadratic_triangle.hpp", "quadratic_quadrilateral.hpp"]],
     [("nodal basis functions", "operator()(r[,s]) of each Polytope"), ("derivative basis", "jacobian(r[,s]) of each Polytope")],
     ["value returned by operator() and jacobian()"])

prop("C02", "Polygon area, centroid and mean chord equal the exact boundary integrals",
     "For every planar polygon kind, the reported signed area and centroid equal the integrals of 1, x and y over the region bounded by the polygon's own (straight or quadratic) edges; edge lengths of straight-sided polygons add up to the perimeter, and mean chord length is pi times area over perimeter. The area swept between a quadratic edge and its chord, and its centroid, equal the exact integrals as well.",
     ["inputs"], "all vertex positions (edges in general position) in exact arithmetic, for triangle, quadrilateral, quadratic triangle and quadratic quadrilateral",
     "Tests use axis-aligned unit shapes whose mid-edge nodes lie on one side; sign, weight and rotation errors cancel there.",
     [GEO + f for f in ["polygon.hpp", "triangle.hpp", "quadrilateral.hpp", "quadratic_segment.hpp", "quadratic_triangle.hpp", "quadratic_quadrilateral.hpp"]],
     [("shoelace / enclosed area sums", "area(), centroid(), enclosedArea(), enclosedCentroid()"), ("perimeter, meanChordLength", "polygon.hpp")],
     ["area(), centroid(), perimeter(), meanChordLength()"])

prop("C03", "Polygon edges form a closed loop and flipping reverses it",
     "The edges of every polygon, taken in order, join head to tail, visit every vertex exactly once and carry the mid-edge node that the polygon's own boundary interpolation carries; a mesh returns the same edges for a face as the polygon built from that face's vertices. Flipping a polygon or a mesh face yields the same set of edges with every direction reversed, and flipping never changes which mid-edge node belongs to which pair of corners.",
     ["inputs"], "all vertex labels and positions, all edge indices, all 4 polygon kinds and the corresponding mesh faces",
     "Only a few example polygons are flipped in tests, and for quadratic quadrilaterals only the vertices the test author thought of are compared.",
     [GEO + f for f in ["polygon.hpp", "triangle.hpp", "quadrilateral.hpp", "quadratic_triangle.hpp", "quadratic_quadrilateral.hpp"]] + ["include/um2/mesh/face_vertex_mesh.hpp"],
     [("edge index arithmetic", "getEdge in polygon.hpp and face_vertex_mesh.hpp"), ("flip / flipFace", "each polygon and FaceVertexMesh")],
     ["getEdge(), flip(), flipFace()"])

prop("C04", "Small vector and matrix algebra obeys the laws of linear algebra",
     "Element-wise vector arithmetic, dot and cross products, norms, distances, matrix-vector and matrix-matrix products, determinant, inverse, transpose-free rotations and box unions/extents/centroids compute exactly the operation their name promises in every supported dimension. In particular an inverse times its matrix is the identity, rotations are orthonormal with determinant one, and results do not depend on whether the SIMD or the array representation of vectors is configured.",
     ["inputs", "configurations"], "all component values in exact arithmetic, dimensions 1-4, square and non-square matrices, with and without the SIMD vector representation",
     "Tests check single numeric instances of some operators and only for the one configuration that is built.",
     ["include/um2/math/vec.hpp", "include/um2/math/mat.hpp", GEO + "axis_aligned_box.hpp", GEO + "point.hpp"],
     [("operators", "vec.hpp, mat.hpp"), ("representation switch", "UM2_ENABLE_SIMD_VEC in vec.hpp")],
     ["returned vectors/matrices"])

prop("C05", "Grids and partitions tile their box and index it bijectively",
     "For regular and rectilinear grids, adjacent cells share exactly their common face, the first and last cell touch the grid's extreme faces, cell extents/centroids agree with the cell boxes, and the cell found for a contained point is the cell whose box contains it. The flat index is the row-major bijection of the multi-index, and partitions store the child given for a cell at that same flat index.",
     ["inputs"], "all grid origins, spacings/division positions, cell counts and multi-indices, in 1, 2 and 3 dimensions",
     "Tests exercise one or two small grids with equal spacing, where swapped axes or off-by-one strides coincide.",
     ["include/um2/mesh/regular_grid.hpp", "include/um2/mesh/rectilinear_grid.hpp", "include/um2/mesh/regular_partition.hpp", "include/um2/mesh/rectilinear_partition.hpp"],
     [("index arithmetic", "getFlatIndex/getBox/numCells/getCellIndexContaining"), ("row reversal", "RectilinearPartition ctor")],
     ["getBox(), getFlatIndex(), getCellCentroid(), getCellIndicesIntersecting(), getChild()"])

prop("C06", "Every reported ray intersection lies on both the ray and the edge",
     "Each ray parameter returned for a line segment or quadratic segment is non-negative and is the parameter of a point that lies on the ray's line and on the segment (segment parameter within its closed unit interval); no parameter is reported for points outside the segment or behind the origin. Intersecting a polygon, box or mesh face reports exactly the intersections of its edges.",
     ["inputs"], "all rays and all vertex positions in exact arithmetic (degenerate denominators excluded)",
     "Tests shoot a few axis-aligned rays; the quadratic branch formulas and acceptance ranges are only hit at convenient values.",
     [GEO + "line_segment.hpp", GEO + "quadratic_segment.hpp", GEO + "polygon.hpp", GEO + "axis_aligned_box.hpp", GEO + "ray.hpp"],
     [("Cramer's rule / quadratic formula", "intersect(ray)"), ("range filters", "r >= 0, 0 <= s <= 1")],
     ["count and buffer written by intersect"])

prop("C07", "Morton encoding interleaves coordinate bits losslessly",
     "Encoding 2- and 3-dimensional integer coordinates places bit k of each coordinate at its interleaved position of the code and nowhere else, decoding is the exact inverse on every code an encoding can produce, and the portable and the BMI2 implementations agree. Encoding of points in the unit cube is the integer encoding of the scaled coordinates.",
     ["inputs", "configurations"], "all 32- and 64-bit coordinates and codes within the coordinate ranges, both implementations",
     "Tests use small coordinates so high-order mask bits are never exercised, and only one of the two implementations is compiled.",
     ["include/um2/math/morton.hpp", GEO + "morton_sort_points.hpp"],
     [("magic masks / pdep / pext", "morton.hpp"), ("scaling to integers", "morton.hpp")],
     ["mortonEncode, mortonDecode"])

prop("C08", "Modular rays tile the box and start on its boundary",
     "For every angle and spacing, the rays generated for a module start on the faces of the module box at equally spaced positions that sum to the face length, all share one unit direction whose tangent is consistent with that spacing, and every index below the total produces a ray. Rays of the complementary angle mirror those of the angle.",
     ["inputs"], "all angles in the open interval (0, pi), spacings, boxes and ray indices",
     "Tests check one box and a few angles; spacing/origin formulas for the other quadrant or a shifted box are not covered.",
     [GEO + "modular_rays.hpp"],
     [("ray origin formulas", "ModularRayParams ctor and getRay")],
     ["getRay(i), getSpacing(), getDirection()"])

prop("C09", "Statistics and root solvers compute their mathematical definition",
     "Sum, mean, median, variance and standard deviation of a sequence equal their definitions for every length (mean and variance satisfy the recurrences of the definition after every element). Every real root returned by the quadratic and cubic solvers satisfies its equation, and the number of roots follows the discriminant.",
     ["inputs"], "all coefficient values and all sequences of any length, exact arithmetic",
     "Tests check a few vectors of a fixed length and a few polynomials with tidy roots.",
     ["include/um2/math/stats.hpp", "include/um2/math/quadratic_equation.hpp", "include/um2/math/cubic_equation.hpp"],
     [("Welford recurrence", "variance in stats.hpp"), ("closed-form roots", "quadratic_equation.hpp, cubic_equation.hpp")],
     ["returned scalars / root vectors"])

prop("C10", "Containers own exactly one buffer and keep value semantics",
     "Every constructor, assignment, swap, resize, push and clear of the dynamic array and string leaves the container owning exactly one live buffer large enough for its elements (or none), frees the previous buffer exactly once, and never leaves two containers sharing a buffer. Copying copies every element, moving leaves the source empty, growth preserves the existing elements in order, and size/capacity report the buffer actually held.",
     ["inputs", "histories"], "all sizes, capacities, contents and operation sequences, short and long strings, trivially and non-trivially copyable elements",
     "Tests use short sequences of operations on small sizes; leaks, double frees and off-by-one capacities on other paths are invisible without exploring each path.",
     ["include/um2/stdlib/vector.hpp", "include/um2/stdlib/string.hpp"],
     [("begin/end/capacity triple", "Vector"), ("short/long representation", "String")],
     ["size(), capacity(), data(), element values"], [("begin/end/end_cap", "owned buffer bounds", "vector.hpp")])

prop("C11", "Element-type tables are total, mutually inverse and dimensionally consistent",
     "The conversions between element types, vertex counts, file-format topology codes and mesh kinds are defined for every supported element type, are inverse to each other, and report each type with the vertex count its name denotes. Unsupported codes are reported as invalid rather than mapped to another type.",
     ["inputs"], "every enumerator of every element/mesh type and every table entry",
     "Tests touch only the types used by the example meshes; a mixed-up entry for a rarely used type passes.",
     ["include/um2/mesh/element_types.hpp", "src/mesh/polytope_soup.cpp"],
     [("switch tables", "element_types.hpp, polytope_soup.cpp")],
     ["returned counts/types"])

prop("C12", "Everything written to mesh files is what the readers look for",
     "Every element name, attribute name, topology name, dataset naming scheme and data layout emitted by a mesh-file writer (XDMF/HDF5, Abaqus-compatible and .info files) is accepted by the corresponding reader with the same meaning, and every mesh/element-set datum stored is written from the field it is read back into.",
     ["inputs", "histories"], "all meshes and element sets, for each file format with both a writer and a reader",
     "Round-trip tests use a few meshes with some element types; attributes or topologies not in those files are never compared.",
     ["src/mesh/polytope_soup.cpp", "src/gmsh/io.cpp", "src/mpact/model.cpp"],
     [("XML/HDF5 literals", "writeXDMF*/readXDMF*"), ("topology codes for mixed meshes", "polytope_soup.cpp")],
     ["file contents, re-read mesh"])

prop("C13", "Mesh conversions preserve geometry and sets",
     "Converting an unstructured element soup to a face-vertex mesh and back preserves every vertex coordinate and every element's vertex list in order; appending soups offsets element and vertex numbers by the existing counts; translation shifts every vertex by the same vector; vertex-to-face adjacency lists every face of every vertex exactly once.",
     ["inputs"], "all meshes of the 4 face kinds and any size",
     "Tests convert a couple of small reference meshes.",
     ["src/mesh/polytope_soup.cpp", "src/mesh/face_vertex_mesh.cpp", "include/um2/mesh/face_vertex_mesh.hpp"],
     [("index/offset arithmetic", "PolytopeSoup::operator+=, FaceVertexMesh ctor, populateVF")],
     ["vertices, connectivity, vertex-face tables"])

prop("C14", "A rejected model edit leaves the model unchanged",
     "Every model-building request that is refused with an error (out-of-range ids, wrong counts, inconsistent extents or heights, already-added parts) leaves all previously added meshes, cells, modules, lattices, assemblies and the core exactly as they were and returns no valid id, when errors are configured not to terminate the program. A request that is accepted adds exactly its own part at the end and changes none of the earlier ones.",
     ["inputs", "histories"], "every add* entry point of the simulation model and every argument combination that triggers an error path",
     "Tests run with well-formed inputs; error paths with non-terminating errors are not exercised at all.",
     ["src/mpact/model.cpp", "include/um2/mpact/model.hpp"],
     [("validate-then-commit ordering", "Model::add*")],
     ["number and contents of model parts after a failed call"])

prop("C15", "Model parts are accepted exactly when valid and store what was asked",
     "A request to add a mesh, coarse cell, module, lattice, assembly or core is refused with an error exactly when an id it names does not exist, a count is wrong, or the extents or heights of its children do not agree. When it is accepted, the stored part has exactly the requested child ids in the requested layout (rows given from top to bottom), mesh kind, materials, and divisions derived from its children's extents or the requested heights, placed with its lower-left corner at the origin.",
     ["inputs"], "every argument of every model-building entry point, on a model that already has several parts of every kind",
     "Tests pass valid ids only, plus a few death cases, and the layouts they build are uniform, so swapped rows, columns or ids are invisible.",
     ["src/mpact/model.cpp", "include/um2/mpact/model.hpp", "include/um2/mesh/rectilinear_partition.hpp"],
     [("id and extent validation", "Model::addCoarseCell/addRTM/addLattice/addAssembly/addCore"), ("divisions from child extents", "RectilinearGrid(Vector<Box>)"), ("row order of ids", "Lattice / RectilinearPartition constructors")],
     ["error log, returned id, stored children, divisions"])

prop("C16", "The C interface returns the model's own data for the requested part",
     "Each C entry point reports sizes, ids, heights, materials and coordinates of exactly the part kind and index the caller named, for every mesh kind a part can have, writes every output argument on success, and reports invalid indices instead of reading out of bounds.",
     ["inputs", "programs"], "all C entry points, all indices and all four mesh kinds",
     "Tests call a subset of the entry points on one model.",
     ["src/um2c.cpp", "include/um2c.h"],
     [("delegation to model accessors", "src/um2c.cpp")],
     ["output arguments of the C functions"])

prop("C17", "Hierarchy traversals place every cell at the sum of its parents' offsets",
     "Wherever the model is flattened (to a mesh, to a file, to C callers), a coarse cell's position is its lower-left corner inside its module plus the module's inside its assembly plus the assembly's inside the core, and its height is the mid-plane of its lattice layer; volumes use that layer's thickness.",
     ["inputs"], "all model hierarchies with arbitrary module, lattice, assembly and core layouts",
     "Example models are uniform or single-assembly, so a missing or doubled offset is zero.",
     ["src/mpact/model.cpp", "src/um2c.cpp"],
     [("offset accumulation", "Model::operator PolytopeSoup, writeXDMFFile, um2c wrappers")],
     ["vertex coordinates, z of cells, volumes"])

prop("C18", "A model read back from file re-links every part to the one it was written with",
     "Reading a model file assigns each distinct coarse cell, module, lattice and assembly one new index, recognises repeated parts by that part's own number, and connects every parent to the children it was written with, for any number of distinct parts of each kind.",
     ["inputs", "histories"], "all written models, including assemblies with several distinct lattices",
     "The round-trip test model has one lattice per assembly, so wrong bookkeeping of lattice numbers is not reached.",
     ["src/mpact/model.cpp"],
     [("seen-id vectors", "Model::readXDMFFile")],
     ["children of each part after reading"])

prop("C19", "Cross-section algebra treats every reaction in every group alike",
     "Temperature interpolation, mixture accumulation, group collapse and validation of multigroup cross sections cover every reaction field (absorption, fission, nu-fission, transport, scattering, scattering matrix) and every group with the same formula: linear in the square root of temperature between the bracketing tabulated temperatures, number-density weighted sum and arithmetic mean respectively. Total scattering is the sum over outgoing groups of the scattering matrix.",
     ["inputs"], "all numbers of groups, temperatures, densities and data",
     "The library-dependent paths are not exercised at all in the built configuration, and the others with one-group data where a transposed matrix is invisible.",
     ["src/physics/nuclide.cpp", "src/physics/cross_section.cpp", "src/physics/material.cpp"],
     [("field-wise loops", "Nuclide::interpXS, Material::populateXSec, XSec::collapseTo1GroupAvg")],
     ["values of each XSec field"])

prop("C20", "Material composition builders conserve mass and atoms",
     "Building a material from density and weight or atom fractions yields number densities whose mass sum equals the given density, with the isotopic and stoichiometric ratios requested; the uranium dioxide builder (with or without gadolinia) uses the documented isotopic relations and natural abundances. Adding a nuclide twice, with an invalid identifier or a non-positive density, or by weight without a known atomic mass, is reported as an error, and nothing else is.",
     ["inputs"], "all densities and fractions in exact arithmetic",
     "Tests compare one enrichment with a reference number to a loose tolerance.",
     ["src/physics/material.cpp"],
     [("number density formulas", "Material::addNuclide*/setUO2")],
     ["numDensity(i)"])

prop("C21", "Built-in nuclear data tables are right and consistent",
     "Every entry of the built-in tables is right: each nuclide has one atomic mass and it agrees with its mass number (or its element's atomic weight), exactly the symbols of the periodic table are understood and denote their atomic number. Each material of the built-in seven-group benchmark set carries the published data, in which scattering is the sum over outgoing groups, transport equals absorption plus scattering and fission data and flags are consistent.",
     ["inputs"], "every entry of every built-in table",
     "Tests spot-check two or three entries.",
     ["src/physics/nuclide.cpp", "src/physics/cross_section.cpp", "src/physics/material.cpp", "include/um2/physics/nuclide.hpp"],
     [("constant tables", "ELEMENTS, atomic masses, C5G7 sets")],
     ["table values"])

prop("C22", "Coarse-mesh acceleration formulas match their equations in every configuration",
     "The acceleration (CMFD) analysis uses a symmetric 32-point Gauss-Legendre rule that integrates polynomials exactly to degree 63, and assembles its matrices, spatial closure and scalar factor according to the documented equations, although that code is not part of the default build.",
     ["configurations", "inputs"], "all cell parameters; the configuration that enables the code",
     "The code is compiled out in the tested configuration, so no test ever executes it.",
     ["src/physics/cmfd.cpp", "include/um2/physics/cmfd.hpp"],
     [("quadrature tables and matrix assembly", "cmfd.cpp")],
     ["spectral radius"])

prop("C23", "Every supported build configuration compiles and agrees on interfaces",
     "Every combination of the documented feature options (precision, assertions, SIMD vectors, BMI2, BLAS, OpenMP, HDF5, XML, mesh generator) type-checks, every public class template can be fully instantiated for each supported dimension and precision, and no public declaration is left without a definition.",
     ["configurations", "programs"], "all option combinations and all explicit instantiations",
     "The test suite builds exactly one configuration, and templates members never used by a test are never instantiated.",
     ["include/um2", "src", "cmake/config.hpp.in"],
     [("preprocessor configuration", "config.hpp.in")],
     ["compiler diagnostics"])

prop("C24", "Pure-marked functions have no side effects besides diagnostics",
     "Every function the library declares free of side effects neither writes to memory that outlives the call (arguments, object, globals) nor allocates results it forgets, other than logging; so calling it twice, reordering or eliding calls never changes program results.",
     ["programs", "inputs"], "every function annotated pure or const, over its whole call graph",
     "The annotation lets compilers elide calls; whether that is safe depends on all callees, not on observed results.",
     ["include/um2", "src"],
     [("PURE / CONST annotations", "config.hpp.in")],
     ["results with calls elided or merged"])

prop("C25", "Dense matrix products and solves agree between BLAS and built-in paths",
     "Matrix-matrix and matrix-vector products, in-place updates and linear solves of the dense matrix type compute the mathematical operation with column-major storage for every shape, overwrite rather than accumulate into their output, do not modify their inputs unless documented, and give the same result whether or not the BLAS backend is configured.",
     ["inputs", "configurations"], "all shapes and values; BLAS and built-in configurations; real and complex element types",
     "Only the BLAS configuration is built and tested, on square matrices.",
     ["include/um2/math/matrix.hpp", "src/math/matrix.cpp"],
     [("gemm/gemv/gesv argument lists and fallback loops", "matrix.hpp, matrix.cpp")],
     ["output matrices"])

prop("C27", "Geometry operations keep every material and physical group",
     "The group-preserving boolean operations and material-hierarchy helpers of the mesh-generator interface re-create every physical group that existed before with the same dimension, number and name, and give overlapping entities to the material that comes first in the requested hierarchy.",
     ["inputs", "histories"], "all models with any number of physical groups and hierarchies",
     "Tests check a few two-disk examples.",
     ["src/gmsh/model.cpp"],
     [("save/remove/operate/re-add", "groupPreserving* in src/gmsh/model.cpp")],
     ["physical groups after the operation"])

prop("C28", "Text and log buffers are never overrun and parsed fields are never stale",
     "Formatting of numbers into strings and log messages never writes or reads past its buffer for any value or message length, and every field parsed from a line is converted before that line buffer is overwritten by the next read.",
     ["inputs"], "all numeric values, message lengths and input files",
     "Tests format small numbers and short messages; library files are not read by any test.",
     ["src/common/logger.cpp", "include/um2/common/logger.hpp", "include/um2/stdlib/string.hpp", "src/physics/cross_section_library.cpp"],
     [("snprintf/strto with fixed buffers", "string.hpp, logger.cpp"), ("line buffer reuse", "cross_section_library.cpp")],
     ["memory, parsed values"])

prop("C29", "Generated pin meshes fill the square and keep every ring's area",
     "The mesh generated for a cylindrical pin of any pitch, radii and ring counts, in linear or quadratic order, has counter-clockwise faces that meet edge to edge and fill the square pitch exactly; every face of a ring has the same area, the faces of a ring add up to the circular annulus that ring stands for, and no vertex lies outside the square. Each face of the pin cell has the material of the region it lies in. Requests that are invalid or do not fit the pitch are refused and add nothing.",
     ["inputs"], "all pitches and increasing radii, both mesh orders, several numbers of sectors, regions and rings per region",
     "Tests build one or two pins and check counts and a few areas within tolerances; errors in wrap-around faces, in the second ring of a region or in the area outside the last ring need other layouts.",
     ["src/mpact/model.cpp"],
     [("equal-area ring radii", "Model::addCylindricalPinMesh"), ("face connectivity with wrap-around", "Model::addCylindricalPinMesh"), ("materials of rings", "Model::addCylindricalPinCell")],
     ["vertices and faces of the stored mesh, materials of the coarse cell"])

prop("C30", "Mesh queries agree with their faces; validation reports defective meshes",
     "Searching a mesh for a point names a face that contains it and fails only if none does, intersecting a mesh with a ray lists the crossings of every face and no others together with the position where each face's list begins, and the bounding box of a mesh encloses exactly its faces. Validating a mesh turns clockwise faces round and reports exactly those meshes whose faces overlap or leave holes; faces in order are left as they are.",
     ["inputs"], "all vertex positions, points and rays, for the four mesh kinds; all listed connectivities with holes, overlaps and turned faces",
     "Tests query one reference mesh of each kind at a few points and validate correct meshes only.",
     ["src/mesh/face_vertex_mesh.cpp", "include/um2/mesh/face_vertex_mesh.hpp"],
     [("search and intersection loops", "FaceVertexMesh::faceContaining, intersect"), ("edge pairing and boundary walk", "checkManifoldWatertight, checkCCWFaces")],
     ["returned face index, coordinates and offsets, reported errors, connectivity after validation"])

prop("C31", "Imported meshes, region powers and sources use each face's own data",
     "Importing meshes into the cells of a model gives every cell the mesh of its own numbered set, of the kind its elements have, moved so that its lower-left corner is at the origin, with every face's material the one named for that face. Region powers extracted from solver output list every set of touching powered faces exactly once with its total power (density times area) and its area centroid; scattering and fission sources of a face sum flux times cross section over the groups with that face's own material. Missing or unsupported data is reported as an error.",
     ["inputs"], "all positions, powers, fluxes and cross sections, for the four mesh kinds and the listed layouts and orders of faces",
     "Tests check one file each, with one mesh kind and total power only.",
     ["src/mpact/model.cpp", "src/mpact/powers.cpp", "src/mpact/source.cpp"],
     [("cell import", "Model::importCoarseCellMeshes"), ("grouping and merging of powered faces", "getPowers"), ("group sums", "getSource")],
     ["cell meshes and materials, list of powers and centroids, list of sources"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
