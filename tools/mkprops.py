#!/usr/bin/env python3
"""Authoring helper: writes properties.jsonl from the table below (the jsonl is what is committed and read)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
F = "anifem++/fem/"
O = F + "operations/"
S = F + "spaces/"

p("Q01", "Quadrature rules are exact to their order, with normalised barycentric points",
  "For every supported order k, the segment, triangle and tetrahedron quadrature rule integrates every polynomial of degree at most k exactly over every simplex (mean value = weighted sum of point values, up to rounding). Its weights sum to one, its points are barycentric coordinates (sum to one) lying in the closed reference simplex, and its reported number of points matches the data it exposes. Asking for an order the library only covers by a stronger rule gives a rule that is at least that strong. The declared symmetry pattern (orbits of points with equal weights, in the declared order) is that of the data, and an unsupported order is refused.",
  ["inputs", "configurations"], "all orders of the three rule families, all monomials up to the order, arbitrary non-degenerate simplices and random polynomials",
  "The tests integrate a handful of polynomials; an error in one digit of one point of a high order rule is invisible to them.",
  [F+"quadrature_formulas.h", F+"quadrature_formulas.cpp"],
  [("rule tables and expansion of symmetric orbits", F+"quadrature_formulas.cpp"), ("rule access", F+"quadrature_formulas.h")],
  ["segment_quadrature_formulas", "triangle_quadrature_formulas", "tetrahedron_quadrature_formulas"])

p("F01", "Every finite element has the basis dual to its degrees of freedom",
  "On every non-degenerate tetrahedron of either orientation, the value operator of each finite element space evaluates basis functions that are dual to the space's degrees of freedom (each degree-of-freedom functional gives one on its own basis function and zero on the others). The basis spans the documented polynomial space, so any function of that space is recovered from its degrees of freedom at every point, and the reported dimension, number of functions and polynomial order are the true ones.",
  ["inputs", "programs"], "all elementary spaces (piecewise constant, P1, P2, P3, Nedelec, Raviart-Thomas, Crouzeix-Raviart, both bubbles), all affine tetrahedra, all evaluation points, compile-time and run-time interfaces",
  "Tests compare a few values on one or two fixed tetrahedra, mostly of one orientation.",
  [S+"*.h", F+"operators.h", F+"fem_space.cpp"],
  [("value operators", S), ("degree-of-freedom functionals", S), ("run-time spaces", F+"fem_space.cpp")],
  ["Operator<IDEN, ...>::apply", "Dof<...>::interpolate", "BaseFemSpace::applyIDEN"])

p("F02", "Differential operators are the derivatives of the value operator",
  "For every finite element space and every space built from them, the gradient, partial derivative, divergence and curl operators evaluated at any point of any non-degenerate tetrahedron give exactly the corresponding derivatives of the functions that the value operator evaluates, component order included. The reported polynomial order of each operator is never below the true degree of what it returns, and its reported sizes equal the sizes of the result.",
  ["inputs", "programs"], "all operators on all elementary spaces, vector powers, products and enriched sums; all affine tetrahedra and points; batches of several tetrahedra",
  "Tests check the operators on fixed cells and a few spaces; they never relate the operators to each other on arbitrary cells and composites.",
  [S+"*.h", F+"operators.h", F+"operators.inl", F+"fem_space.cpp"],
  [("operators on elementary spaces", S), ("operators on vector/product spaces", F+"operators.inl"), ("run-time operators", F+"fem_space.cpp")],
  ["Operator<OP, FEM>::apply", "ApplyOpFromSpace"])

p("F03", "Compile-time, run-time and symbolic versions of a space agree",
  "A space described at compile time and the same space described at run time return the same operator values, sizes, orders, degree-of-freedom layout and degree-of-freedom values on every tetrahedron, point set and batch. The closed-form basis expressions of a space agree with the values its value operator computes.",
  ["inputs", "programs"], "all spaces and compositions expressible in both interfaces, all operators, random tetrahedra, points and batches",
  "Tests compare the two interfaces for a few pairs on one fixed set of cells.",
  [F+"fem_space.h", F+"fem_space.cpp", F+"operators.h", F+"operators.inl", S+"*.h"],
  [("run-time mirror of static operators", F+"fem_space.cpp"), ("expression basis", F+"fem_space.cpp")],
  ["ApplyOpFromSpace", "ApplyOpFromTemplate", "evalBasisFunctions", "dofMap"])

p("F04", "Composed spaces behave as the stated composition of their parts",
  "A vector power of a space is the block-diagonal repetition of the space, a product of spaces is the block-diagonal concatenation of its factors, and an enriched sum spans exactly the sum of its parts with basis functions dual to its own degrees of freedom. Sizes, degree-of-freedom counts, equality of spaces and access to sub-spaces follow the same structure, and the simplifying constructors give a space with the same functions as the literal ones.",
  ["inputs", "programs"], "random expression trees of products, powers and sums over the elementary spaces, of bounded depth; all operators; random cells and points",
  "Tests build five or six particular compositions; composition is recursive and errors only appear for particular nestings.",
  [F+"fem_space.h", F+"fem_space.cpp", F+"operators.inl", F+"tetdofmap.cpp"],
  [("vector/product/sum spaces", F+"fem_space.cpp"), ("simplification rules", F+"fem_space.cpp")],
  ["FemSpace operators *, ^, +", "make_union_*", "make_complex_*", "subSpace"])

p("F05", "Symbolic expressions evaluate as the operations they spell",
  "A symbolic expression built over any numeric back end by arithmetic, comparisons, functions, matrix operations, concatenation, indexing and assignment describes exactly the value the spelled operations have: evaluating it, expanding it entry by entry or simplifying it gives that value with the stated shape, independently of how the expression shares parts, and inadmissible shapes and indices are refused rather than evaluated.",
  ["programs", "inputs", "histories"], "random programs of constructors, operators, functions, element access, assignments and copies over a numeric back end, of bounded length and matrix size",
  "Tests build a few expressions of one back end and compare their printed form; the meaning of compositions is never evaluated.",
  [F+"expr_interface.h", F+"expr_interface.inl"],
  [("symbolic expressions", F+"expr_interface.h"), ("evaluation", F+"expr_interface.inl")],
  ["Expr", "MExpr", "NumericExprInterface back ends"])

p("E01", "Element matrices are the exact volume integrals of the bilinear form",
  "For every pair of trial and test operators, the volume element matrix equals the integral over the tetrahedron of (D op_A phi_j) . op_B phi_i whenever the coefficient D is polynomial and the requested quadrature order is at least the degree of the integrand. This holds with compile-time and run-time operators, on tetrahedra of either orientation, and the result does not depend on the memory's previous content.",
  ["inputs", "programs", "configurations"], "operator pairs over all spaces, coefficient tensors of every rank and shape, tetrahedra, orders; both dense linear algebra back ends",
  "Tests integrate a fixed set of forms on fixed cells against stored numbers.",
  [O+"core.inl", O+"int_tet.h", O+"int_tet.inl", F+"diff_tensor.h"],
  [("assembly kernel", O+"core.inl"), ("volume integrals", O+"int_tet.inl"), ("coefficient handling", F+"diff_tensor.h")],
  ["fem3Dtet"])

p("E02", "Equivalent descriptions of a coefficient give the same element matrix",
  "The same coefficient given as null (identity), scalar, symmetric or general tensor, declared constant, per-tetrahedron, per-selection or per-point, supplied by a callback for one point or for a batch of points, leads to the same element matrix. The callback is asked for every quadrature point with the correct physical coordinates, cell index and user data.",
  ["inputs", "programs", "configurations"], "all coefficient descriptions valid for an operator pair, random coefficients, cells, orders and batch sizes",
  "Tests use the descriptions one by one with particular forms; nothing compares them.",
  [F+"diff_tensor.h", O+"core.inl"],
  [("coefficient traits and evaluation", F+"diff_tensor.h"), ("weighted coefficient application", O+"core.inl")],
  ["fem3Dtet", "DfuncTraits", "DfuncTraitsFusive"])

p("E03", "Face and edge integrals are exact on the named face or edge",
  "The face (or edge) element matrix equals the integral of (D op_A phi_j) . op_B phi_i over exactly the face (edge) with the requested local number, for every face (edge) number, orientation and polynomial coefficient within the order. In the variant with the normal, (D op_A phi_j) is first contracted with the outward unit normal of that face.",
  ["inputs", "programs", "configurations"], "face numbers 0-3, edge numbers 0-5, operator pairs, coefficients, orders, tetrahedra of either orientation",
  "Tests use a few face numbers on one or two cells.",
  [O+"int_face.h", O+"int_face.inl", O+"int_edge.h", O+"int_edge.inl", F+"geometry.h"],
  [("face integrals", O+"int_face.inl"), ("edge integrals", O+"int_edge.inl"), ("normals", F+"geometry.h")],
  ["fem3Dface", "fem3DfaceN", "fem3Dedge"])

p("E04", "Node and point-set forms are the weighted sum over the given points",
  "The node and point-set element matrices equal the weighted sum over the given points of (D op_A phi_j) . op_B phi_i evaluated there, whether points are given in barycentric or Cartesian coordinates. The two coordinate forms agree with each other for points inside or outside the cell.",
  ["inputs", "programs", "configurations"], "operator pairs, point sets (barycentric and Cartesian), weights, node numbers, coefficients",
  "Tests exercise these routines with a couple of points.",
  [O+"int_pnt.h", O+"int_pnt.inl"],
  [("point forms", O+"int_pnt.inl")],
  ["fem3Dnode", "fem3DpntL", "fem3DpntX"])

p("E05", "A batch of tetrahedra gives the same result as one tetrahedron at a time",
  "Running any element computation on a batch of tetrahedra gives, for each tetrahedron, what running it on that tetrahedron alone gives, independent of its position in the batch, of the other members and of how the computation is split internally. The coefficient callback sees the index of the tetrahedron in the batch.",
  ["inputs", "programs", "configurations"], "batch sizes, positions, all volume/face/edge/point computations, operator kinds and coefficient kinds, both linear algebra back ends",
  "Tests use batches of two or three cells with a few forms in one configuration.",
  [O+"core.inl", O+"int_*.inl", F+"operators.inl", F+"fem_space.cpp"],
  [("fused kernels", O+"core.inl"), ("fused operators", S)],
  ["fem3Dtet", "fem3Dface", "fem3Dedge", "fem3Dpnt*", "fem3Dapply*"])

p("E06", "All memory interfaces agree and stay inside the memory they asked for",
  "Every element computation gives the same result through its stack-memory, caller-supplied-memory and growing-memory variants. With caller-supplied memory of exactly the size the library reports as required, whatever that memory contained before, the computation neither reads or writes outside that memory nor fails.",
  ["inputs", "programs", "configurations"], "all computations with a memory-requirement query, operator pairs, orders, batch sizes, dirty memory; run under address checking",
  "Tests allocate through the growing variants, where an under-reported requirement only shows as silent corruption.",
  [O+"*.inl", O+"dyn_ops.inl", F+"fem_memory.h", F+"fem_space.cpp"],
  [("requirement queries", O), ("growing memory wrappers", O+"dyn_ops.inl")],
  ["fem3D*_memory_requirements", "PlainMemory*", "DynMem"])

p("E07", "Evaluating an operator on a discrete function gives its values at the points",
  "Applying an operator to a vector of degrees of freedom at given points gives the sum of coefficients times operator values of the basis functions, in barycentric and in Cartesian coordinates, and with an extra coefficient tensor it gives that tensor applied to those values. It holds for every number of points and batch size, up to and beyond the library's internal block sizes.",
  ["inputs", "programs", "configurations"], "all spaces and operators, coefficient vectors, point sets from one to beyond internal limits, batches, coefficient tensors",
  "Tests evaluate a few functions at a few points.",
  [O+"eval.h", O+"eval.inl", O+"dyn_ops.inl"],
  [("evaluation of functions", O+"eval.inl")],
  ["fem3DapplyL", "fem3DapplyX"])

p("D01", "Interpolation reproduces every function of the space",
  "Interpolating a function that belongs to the space (with sufficient quadrature order for its moment-type degrees of freedom) gives the degrees of freedom that evaluate back to that function everywhere in the cell, for elementary and composed spaces, in compile-time and run-time interfaces. For spaces whose degrees of freedom are point values or means, interpolating a constant gives the same as interpolating the constant function.",
  ["inputs", "programs"], "all spaces and compositions, random functions of the space, random cells of either orientation",
  "Tests interpolate a few functions on one cell.",
  [S+"*.h", F+"operators.inl", F+"fem_space.cpp", O+"interpolate.h", O+"interpolate.inl"],
  [("degree-of-freedom functionals", S), ("composite interpolation", F+"operators.inl")],
  ["interpolateOnDOF", "interpolateConstant", "interpolateByDOFs", "Dof<FEM>::interpolate"])

p("D02", "Partial interpolation touches exactly the selected degrees of freedom",
  "Interpolating only on selected degrees of freedom or only on selected parts of the cell writes exactly the selected degrees of freedom and leaves all others as they were, and on elementary and composed spaces the written values are those of full interpolation. Region-wise interpolation on a part of the cell gives degrees of freedom that reproduce a function of the space on that part, for spaces whose restriction to the part is determined by the degrees of freedom on the part.",
  ["inputs", "programs"], "spaces, subsets of degrees of freedom and of geometric parts, functions, cells",
  "Tests select one or two parts on a few spaces.",
  [F+"fem_space.cpp", O+"interpolate.inl", F+"operators.inl"],
  [("interpolation over a sparsity", O+"interpolate.inl"), ("interpolation on region", F+"fem_space.cpp")],
  ["interpolateByDOFs", "interpolateOnRegion"])

p("B01", "Imposing values on degrees of freedom leaves the rest of the local system intact",
  "After imposing prescribed values on a set of degrees of freedom in a local matrix and right-hand side, every solution of the modified system takes the prescribed values there and solves the original equations for the remaining ones, a symmetric matrix stays symmetric, and degrees of freedom outside the set keep their equations. The matrix-only and residual-only variants and the geometric selection variants act as the corresponding parts of the full one.",
  ["inputs", "histories"], "random local systems (square, rectangular by maps), subsets and sequences of degrees of freedom, prescribed values, geometric selections over all maps",
  "Tests apply it to one or two fixed systems.",
  [O+"dc_on_dof.h", O+"dc_on_dof.inl", F+"operators.h"],
  [("scalar conditions", O+"dc_on_dof.h"), ("geometric selection", O+"dc_on_dof.inl")],
  ["applyDir", "applyDirMatrix", "applyDirResidual", "applyDirByDofs", "applyConstantDirByDofs"])

p("B02", "Imposing a vector condition along directions keeps the orthogonal equations",
  "After imposing a condition on the components of a vector unknown along an orthonormal set of directions, every solution of the modified local system has the prescribed components along these directions and satisfies the original equations projected on the orthogonal complement. Every other unknown keeps its equation, with the part of the prescribed components moved to the right-hand side, so that its coefficients along the prescribed directions vanish.",
  ["inputs", "configurations"], "random systems, vector unknowns of one to several components, one to all directions, prescribed values",
  "The existing tests cover one direction of a three-component unknown.",
  [O+"dc_on_dof.h", O+"dc_on_dof.inl"],
  [("vector conditions", O+"dc_on_dof.inl")],
  ["applyVectorDir", "applyVectorDirMatrix", "applyVectorDirResidual"])

p("M01", "Degree-of-freedom numbering is a bijection consistent with cell geometry",
  "For every map of local degrees of freedom, the numbers 0..N-1 correspond one-to-one to places (part type, part number, index on the part), conversions in both directions are inverse to each other, and invalid numbers are rejected. Per-part counts sum to the total, and the place of each number agrees with where the corresponding degree-of-freedom functional lives.",
  ["inputs", "programs"], "random maps built by power, product and nesting from elementary maps, every local number",
  "Tests enumerate a few maps.",
  [F+"tetdofmap.h", F+"tetdofmap.inl", F+"tetdofmap.cpp"],
  [("numbering of elementary, vector, product maps", F+"tetdofmap.cpp"), ("static maps", F+"tetdofmap.inl")],
  ["LocalOrderOnTet", "TetDofID", "NumDof", "isValidIndex"])

p("M02", "Iterating a map over selected parts visits exactly the matching numbers, once",
  "Iterating over a selection of parts of the cell visits every degree of freedom lying on a selected part exactly once and nothing else, in either iteration order, for every map and every selection. The iteration that prefers geometric order visits nodes, edges, faces and the cell in this order, plain iteration goes component after component, and every visited item reports its own place consistently.",
  ["inputs", "programs"], "all maps (elementary, power, product, nested), all selections, both orders",
  "Tests iterate over one or two selections.",
  [F+"tetdofmap.h", F+"tetdofmap.inl", F+"tetdofmap.cpp"],
  [("selection iteration", F+"tetdofmap.cpp")],
  ["begin/end", "beginBySparsity/endBySparsity"])

p("M03", "Composite and nested degree-of-freedom maps match their parts",
  "In a power or product of maps, the numbers of each component form a contiguous block ordered as the component itself, and a nested view of a component enumerates exactly that block with a consistent mapping to the parent. Compile-time and run-time compositions agree, equal constructions compare equal, different layouts compare different, and the simplifying merge keeps the layout.",
  ["inputs", "programs"], "random nestings of powers and products, all component paths",
  "Tests check a few nestings.",
  [F+"tetdofmap.h", F+"tetdofmap.inl", F+"tetdofmap.cpp"],
  [("nested views", F+"tetdofmap.cpp"), ("merge", F+"tetdofmap.cpp")],
  ["GetNestedDofMap", "GetNestedDofMapView", "operator==", "merge_with_simplifications"])

p("M04", "Selections of cell parts behave as sets",
  "A selection of parts of a tetrahedron behaves as a set over its fifteen parts under every sequence of set, unset, union, intersection, difference and complement operations, including the variants that add the closure of a part. Iteration and element listing enumerate exactly the members in order.",
  ["histories"], "random operation sequences against a set model",
  "Tests set a few parts.",
  [F+"tetdofmap.h", F+"tetdofmap.cpp", F+"tetdofmap.inl"],
  [("selection bit set", F+"tetdofmap.h")],
  ["TetGeomSparsity"])

p("M05", "Symmetric degrees of freedom are renumbered by a group action",
  "Renumbering a cell's vertices permutes the degrees of freedom of a symmetric family on each part by a permutation (with signs where orientation matters); composing two vertex renumberings composes these permutations, the identity leaves all in place, and the result never leaves the part's symmetry class. The permutation tables agree with the geometric action on points having the declared stabiliser.",
  ["inputs", "programs"], "all vertex permutations of every part type, all symmetry families and multiplicities",
  "The group law is quadratic in permutations and families; tests check a few.",
  [F+"tetdofmap.h", F+"tetdofmap.cpp", F+"tetdofmap.inl"],
  [("symmetry tables", F+"tetdofmap.h"), ("orbit permutations", F+"tetdofmap.cpp")],
  ["DofSymmetries", "S4"])

p("L01", "Dense factorisations and solves are backward-accurate in both back ends",
  "For every well-conditioned input of every supported size, the dense solvers, inverses and determinants satisfy their defining equations up to rounding, and the orthogonal factorisations and singular value decompositions give orthogonal factors reproducing the matrix with ordered non-negative singular values. Both linear algebra back ends satisfy this and agree with each other.",
  ["inputs", "configurations"], "random matrices: sizes, conditioning, scaling, permutation, rank deficiency where supported; both back ends",
  "Tests use a few matrices, and one back end's code is only compiled in its own configuration.",
  [F+"geometry.h"],
  [("LU, QR, SVD", F+"geometry.h")],
  ["fullPivLU", "fullPivLU_solve", "inverse", "householderQR", "jacobiSVD", "complete_orthonormal_cols", "cholesky_solve"])

p("L02", "Geometric primitives satisfy their defining relations on every cell",
  "Volumes, areas, normals, barycentric coordinates and their gradients, diameters and centres computed for any tetrahedron, triangle or segment equal their definitions, and transform correctly under translation, scaling, rotation and vertex renumbering. Barycentric coordinates of the image of a barycentric point recover it.",
  ["inputs", "configurations"], "random cells of either orientation, scales from tiny to huge, random affine maps",
  "Tests check a few cells.",
  [F+"geometry.h"],
  [("cell geometry", F+"geometry.h")],
  ["Tetra", "make_tetras", "geometry functions"])

p("L03", "Matrices and arrays over the caller's memory act on exactly that memory",
  "Dense matrices, band-block matrices and arrays laid over memory of the caller behave like plain matrices stored by columns: sizes, element access, assignment, arithmetic, scaling, norms, copies and printing have the stated meaning for every size and number type, empty ones included; nothing outside the memory is read or written, what does not fit is refused, and views of one memory see each other's changes.",
  ["histories", "inputs", "configurations"], "random histories of operations on matrices and arrays of floating and integral element types over blocks of exactly the needed size",
  "Tests use matrices only as arguments of other functions.",
  [F+"fem_memory.h"],
  [("DenseMatrix", F+"fem_memory.h"), ("ArrayView", F+"fem_memory.h"), ("BandDenseMatrix", F+"fem_memory.h")],
  ["DenseMatrix", "ArrayView", "BandDenseMatrix", "BandDenseMatrixX"])

p("A01", "Work memory never hands out overlapping or undersized live blocks",
  "Under every sequence of allocations, merges, shrinks and releases of the reusable work memory, the live blocks are large enough, aligned, pairwise disjoint and keep their content until released. Memory is returned when cleared, and requests that match what was announced succeed without further growth.",
  ["histories"], "random allocation/release histories with several live requests of varied sizes",
  "Tests follow one allocation pattern.",
  [F+"fem_memory.h"],
  [("chunked memory", F+"fem_memory.h"), ("planned memory", F+"fem_memory.h")],
  ["DynMem", "PlainMemory", "PlainMemoryX"])

p("A02", "Parallel loops run every index once and shared work memory is race-free",
  "The parallel loop helper calls its body exactly once for every index of the range, for every thread count and schedule, and returns after all calls finished. Work memory shared between threads gives each thread blocks disjoint from those of all other threads.",
  ["schedules", "inputs"], "range lengths, thread counts, body durations and allocation histories from several threads",
  "Tests run it in one thread.",
  [F+"mutex_type.h", F+"fem_memory_parallel.h"],
  [("parallel loop", F+"mutex_type.h"), ("thread-shared memory", F+"fem_memory_parallel.h")],
  ["ThreadPar::parallel_for", "DynMemParallel"])

p("V01", "An interval map answers every lookup as the set of intervals it was given",
  "For every sequence of insertions of disjoint or overlapping intervals, lookup of any key finds the value of the interval that contains it or reports none; an insertion that overlaps an interval of another value is rejected without changing the map, one that overlaps or touches only intervals of the same value is merged with them; and bounds, iteration and sizes agree with an ordered list of the accepted intervals. This includes empty maps, unbounded ends and keys at interval boundaries.",
  ["histories"], "random insert/erase/lookup histories over small and extreme key ranges, against an ordered model",
  "Tests build two or three maps.",
  ["anifem++/interval/interval_map.h", "anifem++/interval/interval_map.inl"],
  [("ordered interval storage", "anifem++/interval/interval_map.inl")],
  ["interval_map"])

p("V02", "Interval maps survive printing and parsing",
  "Printing an interval map and parsing the text gives a map that answers every lookup identically, for every map and every choice of delimiters that cannot be confused with numbers or with each other. Malformed text is reported as an error and never crashes or reads outside the text.",
  ["inputs"], "random maps, delimiters and mutated texts",
  "Tests parse two or three texts.",
  ["anifem++/interval/interval_map.h", "anifem++/interval/interval_map.inl"],
  [("text form", "anifem++/interval/interval_map.inl")],
  ["operator<<", "parse_interval_map"])

p("V03", "Interval-based enumerations behave as the sequences they describe",
  "An enumeration described by contiguous ranges or by several range arrays behaves as the ordered sequence of all described numbers: size, indexing, iteration, random jumps, distances, comparisons, bounds and membership agree with the explicit sequence, also when the numbers are renumbered by an explicit map. Comparison of positions is a total order consistent with distance.",
  ["inputs", "histories"], "random range sets including empty ranges, iterator operation sequences",
  "Tests check a few fixed enumerations.",
  ["anifem++/interval/ext_array_enum.h", "anifem++/interval/ext_array_enum.inl", "anifem++/interval/interval_enum.h", "anifem++/interval/interval_enum.inl"],
  [("range enumerations", "anifem++/interval/ext_array_enum.inl")],
  ["interval_enum", "ext_range_array_enum", "ext_array_enum"])

p("X01", "Automatic differentiation returns true values, gradients and Hessians",
  "For every expression built from the supported functions and operations, the computed value, first and second derivatives with respect to the declared variables equal the mathematical ones wherever the expression is smooth, for scalar, vector, tensor and symmetric-tensor variables and for every requested derivative depth. In-place operations give the same as their out-of-place forms.",
  ["programs", "inputs"], "random expression trees over all functions and operations, variables, parameters and constants, at random points away from singularities",
  "Tests check a few expressions.",
  ["anifem++/autodiff/autodiff.h", "anifem++/autodiff/autodiff.inl"],
  [("derivative rules", "anifem++/autodiff/autodiff.inl")],
  ["VarPool", "ADVal", "elementary functions"])

p("X02", "Symmetry-packed tensors agree with their full-index definitions",
  "Packed symmetric vectors, matrices and fourth-rank tensors return the same components as the full tensor they represent under every index permutation their symmetry allows, and all algebra on them (sums, products, contractions, determinants, inverses, adjugates, traces, norms, tensor products, conversions) equals the full-index definition. Index packing is a bijection between independent components and storage.",
  ["inputs", "programs"], "all tensor kinds and sizes, random components, all index tuples",
  "Tests check a few entries of a few products.",
  ["anifem++/autodiff/physical_tensors.h", "anifem++/autodiff/physical_tensors.inl", "anifem++/autodiff/physical_tensors_3d.inl"],
  [("packed storage", "anifem++/autodiff/physical_tensors.inl"), ("3d algebra", "anifem++/autodiff/physical_tensors_3d.inl")],
  ["SymMtx", "SymTensor4Rank", "BiSymTensor4Rank", "PhysMtx", "Tensor4Rank"])

p("X03", "Strain invariants and stress conversions are mutually consistent derivatives",
  "For every deformation gradient, the strain, its invariants and the stress conversions equal their continuum-mechanics definitions, the provided first and second derivatives of the invariants equal the true derivatives, and the plain functions and differentiable variables agree. The conversions of the stress and its derivative with respect to the displacement gradient are exact derivatives of the energy.",
  ["inputs", "programs"], "random deformations, fibre directions and energies composed of the invariants",
  "Tests compare at one deformation.",
  ["anifem++/autodiff/cauchy_strain_invariants.h", "anifem++/autodiff/cauchy_strain_invariants.inl", "anifem++/autodiff/cauchy_strain_autodiff.h"],
  [("invariants", "anifem++/autodiff/cauchy_strain_invariants.inl"), ("differentiable invariants", "anifem++/autodiff/cauchy_strain_autodiff.h")],
  ["Mech:: functions and variables"])

W = "anifem++/inmost_interface/func_wrap"
p("W01", "Wrapped element functions keep their declared shape and pass what they get",
  "A wrapped element function is called exactly once per call with the arguments, results, working arrays, user data and memory it was given (memory only where it was asked for and a memory index is given), returns its code, and declares the numbers, sizes and sparsities of arguments and results and the sizes of working arrays it was made with; copies, moves, assignments and holders of any wrapper keep all of that; memory indexes of wrappers that are alive at the same time stand for distinct memories that stay the same until released. Expanding, compressing and describing a matrix by its sparsity, in place or not, are exact inverses and touch nothing outside.",
  ["inputs", "histories"], "sparsities (dense, sparse, full, empty), all forms of functions, histories of copies, assignments and memory requests",
  "No test compiles the wrappers at all; several of their public functions could not even be instantiated.",
  [W + ".h", W + ".inl"],
  [("sparsity and wrappers", W + ".h"), ("conversions and generators", W + ".inl")],
  ["MatSparsity", "MatSparsityView", "SparsedData", "MatFuncWrap", "MatFuncWrapDynamic", "MatFuncWrapHolder", "GenerateElemMatRhs", "GenerateElemMat", "GenerateElemRhs"])
p("G01", "Global numbering of degrees of freedom is a bijection in the announced order",
  "On every mesh (local numbers with holes, any global numbers) and for every set of variables, each enumerator (all six kinds, any arrangement of its five keys, direct or reversed, alone or inside the holder) numbers the degrees of freedom of the mesh without gaps or repetitions exactly in the announced order; index to place and place to index are inverse; the full index gives the place of a value on the element, for all variables together and for one, however it is asked for; going through the mesh by numbers or by places, whole or any slice, meets each selected degree of freedom once; the first index not below a key is found; enumerators release what they keep on the mesh when destroyed, cleared, moved or overwritten.",
  ["inputs", "configurations", "histories"], "tetrahedral meshes, maps of variables, arrangements, slices, histories of enumerators",
  "The tests cannot build it at all here: it needs the INMOST library.",
  ["anifem++/inmost_interface/global_enumerator.h", "anifem++/inmost_interface/global_enumerator.cpp"],
  [("enumerators", "anifem++/inmost_interface/global_enumerator.cpp"), ("indices and iterators", "anifem++/inmost_interface/global_enumerator.h")],
  ["OrderedEnumerator", "SimpleEnumerator", "GlobEnumeration", "IGlobEnumeration"])
p("G02", "Values stored on mesh elements reach the right degrees of freedom of a cell",
  "On every cell the restored nodes, edges and faces are those of the tetrahedron in the order and orientation the element library expects; a value stored on a shared node, edge, face or cell is taken as the same degree of freedom by all the cells that share it, with the symmetry and the orientation sign implied by the global node numbers, for all variables or one component, from one tag or one tag per variable; copying between vectors, common tags and tags of variables, in any direction, moves each value to its own place; reordering stored values after the nodes were renumbered leaves the function unchanged.",
  ["inputs", "configurations"], "meshes, numberings, maps of variables, tags, components",
  "The tests cannot build it at all here: it needs the INMOST library.",
  ["anifem++/inmost_interface/ordering.h", "anifem++/inmost_interface/ordering.inl", "anifem++/inmost_interface/global_enumerator.cpp"],
  [("places and signs", "anifem++/inmost_interface/ordering.inl"), ("copies", "anifem++/inmost_interface/global_enumerator.cpp")],
  ["collectConnectivityInfo", "createOrderPermutation", "getDOFLocus", "GatherDataOnElement", "reorder_mesh_function_data", "CopyByEnumeration"])
p("G03", "Assembled matrix and vector are the sums of the local contributions",
  "For every mesh, set of variables, numbering and number of threads, the assembled matrix and right-hand side are the sums over the cells of what the element functions return, placed and signed by the numbering, whichever functions are given (matrix, right-hand side, both at once), sparse or dense, and whichever options of insertion are used; the template of the matrix holds all the places that can be filled; a function gets the geometry, the nodes in the right order and the values of the cell it is called for; not-a-number is reported.",
  ["inputs", "schedules", "configurations"], "meshes, spaces, enumerators, functions, options, threads",
  "The tests cannot build it at all here: it needs the INMOST library.",
  ["anifem++/inmost_interface/assembler.h", "anifem++/inmost_interface/assembler.inl", "anifem++/inmost_interface/elemental_assembler.cpp"],
  [("assembler", "anifem++/inmost_interface/assembler.inl"), ("local assembling", "anifem++/inmost_interface/elemental_assembler.cpp")],
  ["AssemblerT", "ElementalAssembler"])
p("U01", "Values, integrals and projections of functions on a mesh are right",
  "For every mesh, space and function: the value of an operator applied to a stored variable (or to a component of it) at a point or at barycentric points of a cell is the value of the finite element function with the stored degrees of freedom; integrals of functions are exact for polynomials up to the requested order and skip hidden cells; the L2 projection keeps functions of the space and leaves an error orthogonal to it; a tag created for a variable can hold it; spaces are found by their names and unknown names are refused; the state of a linear solver is printed whatever it is.",
  ["inputs", "configurations"], "meshes, numberings of nodes, spaces, operators, components, polynomials, orders of quadrature",
  "The tests cannot build it at all here: it needs the INMOST library.",
  ["anifem++/utils/utils.h", "anifem++/utils/utils.inl", "anifem++/utils/utils.cpp"],
  [("evaluation and projection", "anifem++/utils/utils.cpp"), ("evaluation at a point", "anifem++/utils/utils.inl")],
  ["eval_op_var_at_point", "eval_op_var_by_barycentric_points", "integrate_vector_func", "integrate_scalar_func", "make_l2_project", "createFemVarTag", "create_or_load_problem_tag", "choose_space_from_name", "print_linear_solver_status"])
p("U02", "The diffusion problem is solved exactly when its solution is in the space",
  "If the solution of a stationary diffusion problem belongs to the space (polynomial solution, constant or linear tensor of any kind, matching source), the solver of the problem returns it on every mesh for every choice of the elements with prescribed values that leaves the problem solvable, the flux being given on the remaining part of the boundary; callbacks are called only on the elements they are for and at points that lie on them; the Laplace problem is the same with the unit tensor and no source.",
  ["inputs", "configurations"], "meshes, spaces, tensors, polynomials, sets of elements with prescribed values",
  "The tests cannot build it at all here: it needs the INMOST library.",
  ["anifem++/utils/utils.cpp"],
  [("solve_stationary_diffusion", "anifem++/utils/utils.cpp")],
  ["solve_stationary_diffusion", "make_laplace"])
p("U03", "Generated boxes are conforming meshes that fill the box",
  "For every number of steps and every box the generated mesh has the lattice points as nodes, each once, six tetrahedra per block with positive volumes that add up to the volume of the box, faces shared by two cells on opposite sides or lying on the surface of the box, and no element twice; on it polynomials are integrated and projected exactly.",
  ["inputs"], "numbers of steps, corners of the box, sizes of the cube",
  "The tests cannot build it at all here: it needs the INMOST library.",
  ["anifem++/utils/mesh_utils.cpp", "anifem++/utils/mesh_utils.h"],
  [("generation of the mesh", "anifem++/utils/mesh_utils.cpp")],
  ["GenerateCube", "GenerateParallelepiped", "RepartMesh", "print_mesh_sizes"])
p("U04", "Metrics for adaptation are the bounded metrics of the Hessians of a variable",
  "For every mesh, scalar space, stored variable and options, the metric written at each node is symmetric positive definite with eigenvalues and their ratio within the given bounds, and it is the one made of the absolute Hessians of the cells around the node: the one of largest determinant or the log-Euclidean mean of those that are not degenerate, the best degenerate one with its zero eigenvalues lifted, or the isotropic fallback; it does not depend on the order of nodes or on rounding, hidden cells take no part, the variable and other tags stay as they were, arguments that cannot be used are refused.",
  ["inputs", "configurations"], "meshes, numberings, spaces, values, bounds and strategies, kinds of tags",
  "The tests cannot build it at all here: it needs the INMOST library.",
  ["anifem++/utils/adapt_mesh.cpp", "anifem++/utils/adapt_mesh.h", "anifem++/fem/geometry.h"],
  [("construct_metrics", "anifem++/utils/adapt_mesh.cpp")],
  ["construct_metrics", "MetricsConstructTraits"])
p("K01", "The nonlinear solver wrapper reports convergence truthfully",
  "The nonlinear solver interface returns success only when the residual it was given meets the requested tolerance at the returned point, and reports failure otherwise without corrupting the state.",
  ["inputs", "histories"], "systems, tolerances, failing callbacks",
  "The tests cannot build it at all here: it needs SUNDIALS and INMOST.",
  ["anifem++/kinsol_interface/SUNNonlinearSolver.cpp"],
  [("solver wrapper", "anifem++/kinsol_interface/SUNNonlinearSolver.cpp")],
  ["SUNNonlinearSolver"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
for q in P: assert len(q["title"]) <= 80, q["id"]
