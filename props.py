"""The property list: single source for properties.jsonl and MANIFEST.json."""
PROPS, NA = [], []
NOTES = ("All checks are static: a clang-18 based extractor dumps the type-checked syntax tree (templates instantiated) of every translation unit "
         "of the configured build; the rules run dataflow/typestate/effect analyses over it. Exit 2 = no answer (source does not parse, or an anchor of the rule vanished).")


def P(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note))


def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


P("C01", "Collective operations are entered by all ranks alike",
  "Every collective communication (broadcast, reduction, barrier) performed by the library is executed by all ranks in the same order and with the same root, count, type, operation and communicator. "
  "Nothing that can differ between ranks (rank number, local generators, local mesh, local message sizes) decides whether, how often, or with which of these arguments a collective is executed, "
  "unless the ranks have first agreed on it through a collective.",
  ["schedules", "inputs", "configurations"], "for every number of ranks and every distribution of generators and cells over them",
  "The MPI tests run two fixed distributions on four ranks; a hang needs a distribution in which ranks disagree (an empty rank, no neighbour, a zero-size list).",
  ["src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/checkDistributedTessellation.hh", "src/polytope_parallel_utilities.hh", "src/SiloWriter_2d.cc", "src/SiloWriter_3d.cc", "src/MeshEditor.cc"],
  [("rank-uniform control flow around collectives", "every function that can reach an MPI collective")],
  "rank-divergence taint analysis with control dependence over inlined CFGs; collective-sequence language equality on both sides of divergent branches",
  "Covers every path of every function that can reach a collective. Trusts the taint policy listed under assumptions (same call and same control arguments on all ranks).")

P("C02", "Pending send buffers stay intact until the send completes",
  "The memory given to a non-blocking send (payload or size) is neither modified, reallocated nor destroyed before that send has been completed, and every send request is completed before the operation that started it returns.",
  ["schedules", "inputs", "histories"], "for every number of neighbours, every message size and every message delivery order",
  "Small messages are copied eagerly by the MPI library, so a buffer reused too early only corrupts data above the eager limit or on a slow receiver; the tests have few small messages.",
  ["src/DistributedTessellator.cc", "src/MeshEditor.cc"],
  [("generator exchange", "DistributedTessellator::computeDistributedTessellation"), ("shared node coordinates", "DistributedTessellator::computeDistributedTessellation"), ("edge mask exchange", "MeshEditor::flagEdgesForCleaning")],
  "typestate + alias/effect analysis of send buffers between send and wait on the inlined CFG",
  "All paths between each send and its wait are covered. Trusts reserve() amounts and that distinct pointer parameters do not alias.")

P("C03", "Every neighbour message has its matching receive",
  "Every point-to-point message a rank sends to a neighbour is received by that neighbour: both sides use the same tag and element type, go through the whole of the same neighbour list, and leave a message out only when its length is zero. "
  "No rank blocks in a receive or in a send before it has posted the messages its own neighbours are waiting for.",
  ["schedules", "inputs", "configurations"], "for every number of ranks, every neighbour relation and every (also empty) list of shared elements",
  "A mismatch shows only for particular neighbour relations or message sizes; the tests use two 4-rank layouts.",
  ["src/DistributedTessellator.cc", "src/MeshEditor.cc"],
  [("generator exchange (tags 1,2)", "DistributedTessellator::computeDistributedTessellation"), ("node coordinates (tags 9,10)", "DistributedTessellator::computeDistributedTessellation"), ("edge masks (tags 1,2)", "MeshEditor::flagEdgesForCleaning")],
  "matching of send/receive sites by tag with loop-coverage and guard analysis on the inlined CFG",
  "Static matching per communicating function; assumes the neighbour relation itself is symmetric.")

P("C04", "Message buffers hold exactly what is transmitted",
  "Every buffer handed to MPI (point-to-point or collective, on either side) is described to MPI with the datatype of its elements and with a count that is the size the buffer was given, "
  "so no transfer reads or writes past the buffer or reinterprets its elements, and the sender of a length-prefixed message announces the length of the very buffer it then sends.",
  ["inputs", "configurations"], "for every message size and real type",
  "An overrun by a few elements, or a count in the wrong unit, is invisible for most sizes on one architecture.",
  ["src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/MeshEditor.cc", "src/polytope_parallel_utilities.hh", "src/checkDistributedTessellation.hh", "src/SiloWriter_2d.cc", "src/SiloWriter_3d.cc"],
  [("buffer sizing next to every MPI call", "every MPI call with a buffer argument")],
  "type agreement of buffer and datatype; symbolic (polynomial) equality of transmitted count and reaching buffer sizes",
  "Counts that cannot be related symbolically are listed as undecided in the evidence, not alarmed on.")

P("C05", "Neighbour lists stay in step",
  "The list of neighbour ranks and the per-neighbour lists of shared nodes and of shared faces of a tessellation always have the same number of entries, and entry k of all three belongs to the same neighbour: "
  "every operation that adds, removes, resizes, clears or reorders entries of one of them does the same to the other two, and removing neighbours skips none.",
  ["inputs", "histories", "configurations"], "for every operation and every neighbour relation, with and without communication info requested",
  "The lists only go out of step for layouts in which a candidate neighbour turns out to share nothing, which the fixed test layouts hardly produce.",
  ["src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/deleteCells.hh", "src/MeshEditor.cc", "src/Tessellation.hh", "src/polytope_serialize.hh"],
  [("shared element lists", "Tessellation::neighborDomains / sharedNodes / sharedFaces and every function that changes them")],
  "symbolic length tokens propagated over the inlined CFG, with pairing of element-level edits by control region and index term",
  "Assumes the lists agree on entry to an editing operation.")

P("C06", "Serialization round-trips every type",
  "For every serializable type (plain values, points, segments, nested vectors, PLC, ReducedPLC), deserializing what was serialized gives back the same value: reader and writer agree on the order, type and number of everything transferred, "
  "every data member and every element is included unconditionally, the reader consumes exactly the bytes the writer produced, elements read are appended behind those already present, "
  "and every place that unpacks a message unpacks it as it was packed, into an object that holds nothing left over from an earlier message.",
  ["inputs"], "for every value of every serializable type, including empty and nested containers",
  "The serialize test round-trips a few values; a reader/writer mismatch that only shows with holes, 3D points or non-empty targets is not exercised.",
  ["src/polytope_serialize.hh", "src/Point.hh", "src/Segment.hh", "src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/MeshEditor.cc", "src/checkDistributedTessellation.hh"],
  [("Serializer<T>::serializeImpl / deserializeImpl", "every instantiation"), ("packing and unpacking of messages", "every caller of serialize/deserialize")],
  "extraction and comparison of the token grammars of writer and reader (items, places, loop counts, byte counts) from the inlined CFG; member coverage against the record layout",
  "Same-architecture assumption for raw bytes.")

P("C07", "Indices are used with their own numbering",
  "Every integer index is used only with the numbering it belongs to: node numbers select nodes, face numbers faces, cell numbers cells, slots in the neighbour list the per-neighbour lists, and ranks (not slots) name message peers; "
  "the coordinate list is addressed with the dimension of its mesh; and while a mesh is renumbered, old numbers only select in the old lists and masks, new numbers only in the new ones, and only new numbers are stored into the renumbered mesh. "
  "This holds for the C++ tessellation, the quantized tessellation, the C tessellation struct and every conversion between them.",
  ["inputs", "histories"], "for every mesh, dimension, neighbour layout and sequence of edits",
  "All indices are plain integers; a wrong numbering is invisible while two numberings coincide (nothing deleted, neighbour slot equal to rank, small 2D meshes).",
  ["src/MeshEditor.cc", "src/deleteCells.hh", "src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/SiloWriter_2d.cc", "src/SiloWriter_3d.cc", "src/QuantizedTessellation2d.cc", "src/clipQuantizedTessellation2d.cc", "src/snapToBoundary.cc", "src/DimensionTraits.hh", "src/findBoundaryElements.hh", "polytope_c/polytope_tessellator.cc"],
  [("index fields", "Tessellation, QuantizedTessellation2d, polytope_tessellation_t"), ("functions using them", "every function that touches those fields")],
  "kind inference by unification (index numbering as a type) over inlined functions, with separate kinds before and after renumbering",
  "Every function that touches the mesh structures is covered. Values whose kind cannot be inferred are unconstrained.")

P("C08", "Renumbering a mesh is complete and consistent",
  "Whenever an operation drops or renumbers nodes, faces or cells of a tessellation, every list of that tessellation that holds their numbers (face nodes, cell faces, face cells, boundary nodes and faces, shared nodes and faces, convex hull) is renumbered, recomputed or emptied by the same operation, for every entry; "
  "the elements kept are exactly those that are given new numbers, and new numbers are consecutive from 0 in the order in which the elements are kept.",
  ["inputs", "histories"], "for every cell selection, edge tolerance and neighbour layout",
  "Stale numbers stay in range for many meshes; the tests do not look at boundary lists after editing or at parallel meshes after cleaning.",
  ["src/deleteCells.hh", "src/MeshEditor.cc", "src/clipQuantizedTessellation2d.cc", "src/DistributedTessellator.cc"],
  [("cell deletion", "polytope::deleteCells"), ("edge cleaning", "MeshEditor::cleanMesh"), ("clipping", "clipQuantizedTessellation")],
  "must-update path analysis from every renumbering event to every dependent list; comparison of the selections guarding compaction and numbering",
  "Selections that are not mask tests are reported as undecided in the evidence.")

P("C09", "Complemented references are decoded before use",
  "The lists that refer to oriented elements (faces of a cell, cells of a face, edges of a quantized cell, and their counterparts in the C struct) store index k as k or, reversed, as its one's complement ~k. "
  "Every value read from such a list is decoded on its sign (k when not negative, ~k when negative) before it is used as a subscript, an offset, an entry of a list of plain numbers, an unsigned argument, or compared with a plain number; "
  "nothing that is negative or still encoded is ever used as an index, on any path.",
  ["inputs", "histories"], "for every mesh and every orientation of every face",
  "Index 0 and forward references need no decoding, so a wrong decode shows only for reversed faces (or for face 0 reversed), in code the tests run on a few meshes.",
  ["src/Tessellation.hh", "src/MeshEditor.cc", "src/deleteCells.hh", "src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/QuantizedTessellation2d.cc", "src/clipQuantizedTessellation2d.cc", "src/polytope_geometric_utilities.hh", "src/polytope_internal.hh", "src/simplifyPLCfacets.hh", "src/SiloWriter_2d.cc", "src/SiloWriter_3d.cc", "polytope_c/polytope_tessellator.cc"],
  [("encoded lists", "Tessellation::cells, faceCells; QuantizedTessellation2d::cellEdges; polytope_tessellation_t::cell_faces, face_cells"), ("decoding", "internal::positiveID and every sign test on a reference")],
  "path-sensitive sign analysis (forward abstract interpretation) of encoded references over inlined functions",
  "Every function touching an encoded list, with callees inlined. Lists other than the documented ones are recognised by what is stored into them.")

P("C10", "Face orientation is preserved",
  "The orientation expressed by one's-complement references is kept by every operation that copies, renumbers, converts, writes out or reads them: a renumbered or copied reference is complemented exactly when the original was; "
  "a cell is entered into the cell list of a face complemented exactly when it refers to that face in reverse; a new reference is stored forward on one outcome of a comparison with the ends of the face and complemented on the other; "
  "a face reached through a reversed reference has its nodes read in the opposite order; and the first/second node of an edge become node 0/1 of the face.",
  ["inputs", "histories"], "for every mesh, every orientation of every face and every edit or conversion",
  "A lost or flipped orientation leaves all indices valid; areas, normals and signed volumes come out wrong only for some faces, after edits or conversions the tests do not combine with orientation checks.",
  ["src/MeshEditor.cc", "src/deleteCells.hh", "src/QuantizedTessellation2d.cc", "src/BoostTessellator.cc", "src/clipQuantizedTessellation2d.cc", "src/SiloWriter_2d.cc", "src/SiloWriter_3d.cc", "src/polytope_geometric_utilities.hh", "src/simplifyPLCfacets.hh", "polytope_c/polytope_tessellator.cc"],
  [("renumbering", "deleteCells, MeshEditor::cleanMesh, clipQuantizedTessellation"), ("conversion", "QuantizedTessellation2d::fillTessellation, C API fill functions, SiloWriter"), ("reading", "cell centroid/area/volume, cellToReducedPLC, traverseNodes")],
  "polarity tracking on the sign analysis: stores into reference lists, opposite-outcome counterpart stores, mirrored node reads on both outcomes of orientation tests",
  "Orientation of newly built faces relative to geometry (counter-clockwise) is numeric and not decided; only that it is decided by a two-sided test.")

P("C11", "Value types are treated component by component",
  "Points, segments, PLCs, tessellations and the comparators and coordinate accessors defined for them treat every component with its own counterpart. Copying and assignment transfer every member from the same member of the source (a point's index label included). "
  "== is true exactly when all coordinates are equal (the index label takes no part) and != is its negation; < and every comparator used for sorting, searching or as a map key is a strict weak order, and < leaves exactly the equal values unordered. "
  "Arithmetic on points is coordinate-wise, leaves its operands alone and copies the label; element i of a point is its i-th coordinate, for operator[] and for the Boost adaptors alike; constructors put the i-th argument into the i-th coordinate and quantise all coordinates by the same formula. "
  "Dot product, cross product and Euclidean distance combine matching components. clear() empties every container of a tessellation or PLC, and empty() is true exactly when all of them, other than the parallel neighbour lists, are empty.",
  ["inputs"], "for every pair and triple of values",
  "A comparison or an operator that drops or swaps a coordinate agrees with the right one on most samples; an order that is not transitive corrupts sorted sequences and maps only for particular triples.",
  ["src/Point.hh", "src/Segment.hh", "src/PLC.hh", "src/Tessellation.hh", "src/MeshEditor.hh", "src/polytope_internal.hh", "src/RegisterBoostPolygonTypes.hh", "src/polytope_tessellator_utilities.hh", "src/polytope_geometric_utilities.hh"],
  [("points", "Point2, Point3, PointComparator"), ("edges", "Segment, edgeCompare, internal::pairCompare, ComparePairByFirstElement, ComparePairBySecondElement"), ("containers", "PLC::clear/empty, Tessellation::clear/empty"), ("adaptors", "boost::geometry::traits::access, boost::polygon::point_traits and point_mutable_traits")],
  "abstract interpretation of the operations in the domain of value numbers and order relations (every abstract outcome of comparing corresponding components)",
  "Tolerance comparators (FuzzyPoint2LessThan, PointComparator) are not orders by design and are listed as outside the domain.")

P("C12", "Geometric primitives compute what their definitions say",
  "For all arguments, in real arithmetic: circumcentres (2D and 3D, triangle and tetrahedron) are equidistant from all vertices and in the plane of a triangle; triangle and tetrahedron centroids are the means of the vertices; "
  "triangleVolume2 is the cross product (3-1)x(2-1) and tetrahedralVolume6 (3-1)x(2-1).(4-1); computeNormal is (b-a)x(c-a); aboveBelow and compare give -1, 0, 1 for the left of, on and the right of a line, and below, in and above a plane with respect to its normal; zcross_sign is the sign of (p2-p1)x(p3-p1); sgn is the sign (0 counting as positive). "
  "An intersection that is reported lies on both objects, ahead of the origin of a ray (rayPlaneIntersection, raySphereIntersection, rayCircleIntersection, segmentIntersection2D, ends being taken within the tolerance), and one is not denied where there is one; a ray parallel to a plane lies in it exactly when its origin does. "
  "closestPointOnSegment2D is the foot of the perpendicular, or the nearer end when the foot is outside; pointPlaneDistance is the signed distance along the normal and pointLineDistance the length of the perpendicular part; unitVector keeps the direction and gives length one; collinear and between accept exactly points on the line within the tolerance (between: from the first end to the second), coinciding points included. "
  "Dequantising a quantised coordinate gives it back, in every dimension.",
  ["inputs"], "for every value of the arguments, up to rounding",
  "A wrong sign, index or end shows only for particular configurations (parallel, behind the origin, off axis); tests sample a few symmetric ones, and several primitives are not called by any test.",
  ["src/polytope_geometric_utilities.hh", "src/convexIntersect.hh", "src/convexHull_2d.hh", "src/convexHull_3d.hh", "src/QuantizedTessellation2d.cc", "src/QuantizedTessellation3d.cc"],
  [("primitives", "computeCircumcenter*, compute*Centroid*, segmentIntersection2D, ray*Intersection, closestPointOnSegment2D, aboveBelow, compare, computeNormal, zcross_sign, collinear, between"), ("quantisation", "QuantizedTessellation2d/3d::quantize, dequantize")],
  "abstract interpretation in the domain of quotients of polynomials (value numbers with algebraic normal forms); the defining identity is decided on every abstract outcome",
  "Loop-free primitives only; comparisons that abstract values do not decide are taken both ways. Rounding and overflow are not modelled; tolerances are treated as unknowns.")

P("C14", "Every C object owns and releases its memory exactly once",
  "Each array or object a C struct (tessellation, PLC, tessellator) points to is exclusively owned by it: it is allocated before it is used, never replaced while still owned without being released, released exactly once with the matching deallocator when the struct is cleared or freed or filled again, and never points to the caller's memory or to another struct's. "
  "A struct just created or cleared has every pointer NULL and every counter zero, and strings handed to the caller outlive the call.",
  ["histories", "inputs"], "for every sequence of create, fill, clear, refill and free calls of the C interface and either dimension",
  "Leaks, dangling pointers and uninitialised members do not change the values tests look at; they show after refilling, clearing twice or reading a cleared struct.",
  ["polytope_c/polytope_tessellation.cc", "polytope_c/polytope_plc.cc", "polytope_c/polytope_tessellator.cc"],
  [("lifecycle functions", "polytope_*_new, _clear, _free"), ("filling", "fill_tessellation, polytope_tessellator_tessellate_*")],
  "typestate analysis of every pointer member (uninitialised/null/owned/freed/stored) over inlined constructors, fillers and destructors, with pairwise member relations",
  "All paths of every function of polytope_c that touches a C struct. Invariants at entry are those established by create and clear, which are themselves checked.")

P("C15", "The C and C++ interfaces describe the same mesh",
  "Converting a tessellation or PLC between its C++ and its C form, in either direction and dimension, loses, adds and mixes up nothing: every array of one form is filled, completely, from its counterpart in the other; counters are the numbers of elements; rows of variable length are stored at offsets[i], the number of entries in the rows before them, with the offset past the last row present and enough room for every entry; "
  "the two cells of face f are at 2f and 2f+1, the second -1 exactly when the face has one cell, and are read back that way. "
  "The C entry points pass the caller's arrays, with their real lengths (dimension times number of points) and in the order of the parameters, to the operation of the same dimension, and do the same thing in 2D and in 3D.",
  ["inputs"], "for every mesh, PLC and set of generators",
  "The C interface tests look at a few small 2D meshes; an array that is short by a few entries or taken from a sibling member goes unnoticed when the members coincide in size.",
  ["polytope_c/polytope_tessellator.cc", "polytope_c/polytope_plc.cc", "polytope_c/polytope_tessellation.h"],
  [("to C", "fill_tessellation(const Tessellation<D>&, polytope_tessellation_t*), fill_plc"), ("from C", "fill_tessellation(polytope_tessellation_t*, Tessellation<D>&)"), ("entry points", "polytope_tessellator_tessellate_unbounded, _in_box, _in_plc")],
  "reaching-definition value numbering of array layouts (polynomial terms with prefix-sum summaries) over inlined conversion functions; comparison of the arms for the two dimensions",
  "Conversions written in forms whose terms cannot be compared are listed as undecided in the evidence.")

P("C17", "Silo files describe the mesh that was written",
  "What the Silo writers put into files is the mesh, fields and tags they were given. Every array handed to the Silo library has the number of entries and the data type passed with it; the parts of each compound array have the names, order and lengths of the values stored, and part N holds the mesh member it is named after, entire and in order; "
  "coordinate array k holds coordinate k of every node; the counts, face lists and node lists of faces and cells come from the member they describe, reversed faces contribute the node the cell reaches first, and exactly the boundary faces are flagged as exterior; every field and tag map is written on every path, each entry under its own name with the centering and element count of its kind, and cycle and time are recorded. "
  "The names in the group and master multi-block objects are exactly the directories and files the ranks wrote, relative to the file holding them, one per rank, with fields listed in the order they are stored. "
  "Each rank takes the baton before, and hands it on after, everything it writes to its group file; ranks after the first append to that file rather than recreate it, enter their own directory, wait for directories to exist, and every file opened is closed.",
  ["inputs", "configurations", "schedules"], "for every mesh, every set of fields and tags (also empty ones), every number of ranks and of files, and every cycle number",
  "The tests write Silo files but never read one back; wrong lengths, names or centerings, and files a later rank wipes, go unnoticed.",
  ["src/SiloWriter_2d.cc", "src/SiloWriter_3d.cc", "src/SiloUtils.cc", "src/SiloUtils.hh"],
  [("writers", "SiloWriter<2>::write, SiloWriter<3>::write with helpers"), ("baton callbacks", "PMPIO_createFile, PMPIO_openFile, PMPIO_closeFile"), ("tags and fields", "writeTagsToFile, writeFieldsToFile, appendFieldNames, putMultivarInFile")],
  "symbolic sequence analysis (segments with polynomial lengths) of the arrays passed to Silo, abstract interpretation of format strings, typestate of files and baton, on the inlined writers",
  "Trusts the Silo/PMPIO documentation. Lengths or names built in a form that cannot be compared are listed as undecided. The number of 3D edge fields (marked FIXME in the source) is excluded.")

P("C18", "Assertions only observe",
  "A build with assertions disabled (NDEBUG) computes, stores, sends and writes exactly what a build with assertions enabled does: the conditions of assertions and all code compiled only in one of the two builds change no variable, member or global that the rest of the program reads, write no file and send no message, do not return from or leave a loop of the surrounding code, and do not decide whether other code is executed.",
  ["configurations", "inputs"], "for every assertion and every input, in both build configurations",
  "The tests run one build configuration only; a needed side effect inside an assertion is lost in the other.",
  ["src/polytope_internal.hh", "src/MeshEditor.cc", "src/deleteCells.hh", "src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/snapToBoundary.cc", "src/polytope_serialize.hh", "polytope_c/polytope_plc.cc"],
  [("assertion macros", "POLY_ASSERT, POLY_ASSERT2, POLY_BEGIN_CONTRACT_SCOPE in polytope_internal.hh"), ("debug-only code", "every #ifndef NDEBUG region")],
  "both preprocessor variants are analysed: effect (MOD) analysis of the CFG nodes present in one variant only, comparison of the control dependences of the common ones",
  "Debug-only consistency checks may communicate collectively (C01 covers them). An assertion that fails stops the program in one build only; that is its purpose.")
