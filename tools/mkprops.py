#!/usr/bin/env python3
# Source of properties.jsonl (run by hand; the generated file is what counts).
import json,os
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs:a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Gather/scatter computes exactly the reduction of each id group",
 "A blocking gather/scatter replaces every entry of a group (equal absolute nonzero id, anywhere on any process) by the chosen operation applied once to each participating entry: all unflagged ones when not transposed (flagged entries only receive), all entries when transposed (only unflagged receive). Entries with id 0, and all memory outside the arrays, are left untouched. The result is the same for every exchange method, every supported data type and operation, and for the scalar, packed-vector and many-array forms.",
 ["inputs","configurations"],
 "every assignment of ids (zero, positive, negative/flagged, repeated, shared by any subset of ranks, empty ranks), every number of ranks, method (pairwise, crystal router, all-reduce, automatic), domain, operation, transpose and packing",
 "The tests use one or two fixed or random id layouts with one domain and add/few ops; they never enumerate flag patterns, empty ranks, odd rank counts or the cross product of method, packing and transpose.",
 ["src/gs.c","src/gs_local.c","src/gs_defs.h"],
 [("topology discovery (local grouping, shared-id lists)","src/gs.c nonzero_ids, shared_ids"),("local gather/scatter maps","src/gs.c local_map, src/gs_local.c"),("pairwise exchange","src/gs.c pw_*"),("crystal-router exchange","src/gs.c cr_*, crl_*"),("all-reduce exchange","src/gs.c allreduce_*")],
 [("gs handle","maps and message lists derived from ids","src/gs.c struct gs_data")],["values of the user array after the call on every rank"])

p("C02","Gather/scatter results never depend on message timing, and never deadlock",
 "Setting up, using and freeing gather/scatter handles completes with the same result on every rank for every legal behaviour of the message layer: any interleaving of ranks, sends that buffer or that wait for the receiver, data read from send buffers early or late, data written into receive buffers early or late. No legal behaviour makes any rank wait forever, truncates a message or leaves a message unreceived.",
 ["schedules","configurations"],
 "all interleavings of ranks at message-layer calls and all delivery behaviours the MPI standard permits, for every method, number of ranks and small id layout",
 "The tests run on one machine with one MPI whose shared-memory transport buffers small messages eagerly, so only one or two of the permitted behaviours ever occur.",
 ["src/gs.c","src/comm.c","src/comm.h","src/crystal.c"],
 [("posted receives before sends, waits on all requests","src/gs.c pw_exec, cr_exec, cr_learn"),("separate receive and send areas of the exchange buffer","src/gs.c pw_exec_recvs/pw_exec_sends, cr_exec"),("collectives in matching order","src/gs.c gs_setup_aux, auto_setup")],None,["termination of all ranks, arrays after the call"])

p("C03","Nonblocking gather/scatter equals the blocking one, in any overlap",
 "Starting a nonblocking gather/scatter and later waiting for it leaves in the array exactly what the blocking call with the same arguments would have, for every method, operation, domain, transpose and packing. Several started operations on different handles with their own scratch buffers may be pending at once and waited for in any order, interleaved with blocking operations and with new starts, without affecting one another; wait handles stay valid until waited for.",
 ["histories","schedules","inputs"],
 "all start/wait histories up to a bound over several handles (mixed methods), any wait order, all operations including the bitwise-prefix one, arrays with and without shared ids, and any completion timing of the message layer",
 "The nonblocking test starts and immediately waits a few operations on a single handle with one id layout; overlap, wait orders, methods other than the default and empty sharing are not reached.",
 ["src/gs.c","src/comm.c"],
 [("pending-operation table","src/gs.c nblkng_dict, igs, igs_vec, igs_many, gs_wait"),("split pairwise exchange","src/gs.c pw_exec_irecv/isend/wait"),("split all-reduce exchange","src/gs.c allreduce_exec_i/allreduce_exec_wait, src/comm.c comm_iallreduce")],
 [("pending operations","which start is identified by which wait handle","src/gs.c nblkng_dict/nblkng_n/nblkng_count")],["array after the wait"])

p("C04","Unique flagging leaves exactly one unflagged member per group",
 "Making ids unique keeps every absolute value and every zero, and leaves exactly one entry per group unflagged in the whole parallel array, chosen among the entries that were unflagged before; for any number of ranks all ranks agree. A handle set up with the unique option behaves exactly like one set up from the ids made unique first, and leaves the caller's ids unmodified.",
 ["inputs","configurations"],
 "every id layout with at least one unflagged member per group (repeated on a rank, shared among any subset of ranks, already flagged members, zeros), every number of ranks and every method",
 "The unique test looks at one structured layout with no pre-flagged ids and checks through one operation only.",
 ["src/gs.c"],
 [("local non-primaries flagged","src/gs.c make_topology_unique"),("owner = (id mod number of unflagged sharers)-th unflagged sharer","src/gs.c make_topology_unique"),("flags of shared primaries refreshed","src/gs.c make_topology_unique")],None,["the id array after the call; results of gather/scatter with the unique option"])

p("C05","Automatic method choice agrees on all ranks for every timing",
 "With the automatic method, whatever times the ranks measure, setup terminates, all ranks end up using the same exchange method, and the handle then computes exactly what an explicitly chosen method would; tuning runs never touch user data and the rejected candidates are released.",
 ["schedules","configurations"],
 "every outcome of every rank's clock readings during tuning (each method faster, slower or equal, different on each rank), any number of ranks and id layout",
 "Tests see only the timings the machine happens to produce, so typically one method always wins.",
 ["src/gs.c"],
 [("timings reduced over all ranks before comparison","src/gs.c dry_run_time"),("candidate replaced or freed","src/gs.c auto_setup DRY_RUN_CHECK"),("dry run uses no user data","src/gs.c mode_dry_run tables")],None,["termination and results with a controlled clock"])

p("C06","Crystal router delivers every message exactly once, intact",
 "After routing, each rank holds exactly the messages addressed to it by any rank (itself included), each once, with its source, length and every word intact, for any number of ranks and any distribution of message sizes including empty ones; nothing else is in the buffer. Routing terminates under every legal message timing and can be repeated on the same router.",
 ["inputs","schedules","configurations"],
 "all send patterns (any source/target/length combination within bounds), any number of ranks including non powers of two, repeated rounds, all delivery behaviours",
 "The crystal test sends one fixed pattern on at most four ranks.",
 ["src/crystal.c","src/crystal.h"],
 [("recursive bisection with unequal halves","src/crystal.c crystal_router"),("partition of the buffer into kept and sent messages","src/crystal.c crystal_move"),("count then data exchange with up to two senders","src/crystal.c crystal_exchange")],
 [("message buffer","packed target/source/length/payload records","src/crystal.c struct crystal.data")],["crystal data buffer after the call"])

p("C07","Array-of-struct transfer moves every record once and can be undone",
 "Transferring an array of records sends each record to the rank named by its processor field (or by the separate list), where it arrives exactly once with every other byte unchanged; on arrival the processor field names the source when requested and otherwise this rank. A second source-setting transfer returns every record to where it came from, and parallel arrays moved together stay in step.",
 ["inputs","configurations","schedules"],
 "all destination assignments within bounds, record sizes and field offsets (including sizes that are not a multiple of the word), one to several parallel arrays of different record sizes, empty ranks, any number of ranks",
 "The test uses one record type, one field offset and random destinations on at most four ranks.",
 ["src/sarray_transfer.c","src/sarray_transfer.h","src/crystal.c"],
 [("rows sorted by destination and packed","src/sarray_transfer.c pack_int, pack_ext, pack_more"),("unpacking and source field","src/sarray_transfer.c unpack_int, unpack_more"),("row count","src/sarray_transfer.c num_rows")],None,["array contents on every rank after the call"])

p("C08","Sorts return a stable sorted permutation for every size and layout",
 "Value sorts return the sorted multiset of the input; index sorts return a permutation that orders the keys, keeps equal keys in the order of the starting permutation, and never modifies the keys; both for any length, stride, key type and key distribution, and regardless of the previous contents or size of the scratch buffer. Record sorts by one to four fields yield exactly the lexicographic stable order with every record intact.",
 ["inputs"],
 "all key sequences over small alphabets and lengths, all lengths across the algorithm switch points, keys using any subset of digit positions up to the full width, all strides and starting permutations, and floating-point keys (no NaN)",
 "Tests time random data of a few sizes and compare a handful of runs; distributions that select other internal paths (digit skipping, small-n heap/merge, start permutations) are not enumerated.",
 ["src/sort.c","src/sort_imp.h","src/sarray_sort.c","src/sarray_sort.h"],
 [("radix passes with skipped digits","src/sort_imp.h radix_*"),("merge / heap sorts for small n","src/sort_imp.h merge_*, heap"),("in-place permutation by cycles","src/sarray_sort.c sarray_permute_")],None,["output array / permutation / records"])

p("C09","Global reductions and scans are exact on any number of ranks",
 "All-reduce leaves on every rank the operation over all ranks' vectors; scan gives each rank the exclusive prefix over lower ranks (the identity on rank 0) together with the total; reductions and the dot product equal the operation over all local entries of all ranks, the identity where there are none. This holds for every supported type, every operation including the bitwise-prefix one, any vector length including zero, any number of ranks and any message timing, on the communicator passed in, including duplicated and split ones.",
 ["inputs","configurations","schedules"],
 "every number of ranks up to a bound, each operation/type/length, each timing of the message layer",
 "The comm test checks one sum and one scan on at most four ranks; the hand-written tree for operations MPI does not have is never executed.",
 ["src/comm.c","src/comm.h","src/gs_local.c"],
 [("binary-tree scan for any np","src/comm.c scan_imp"),("binary-tree all-reduce","src/comm.c allreduce_imp"),("delegation to MPI","src/comm.c comm_allreduce, comm_iallreduce"),("local reduction","src/comm.c comm_reduce__T")],None,["result on every rank"])

p("C10","Fortran tuple transfer and sort respect capacity and keep columns together",
 "The Fortran tuple interface moves each column (integer, long and real parts together) to the rank in its key row and sets that entry to the source, returns the number of columns addressed to this rank even when it exceeds the capacity, stores exactly min(count, capacity) whole columns each of which was really sent, and never writes past the caller's arrays. Tuple sorts order the columns lexicographically by the listed nonnegative keys, stably and with columns intact; an invalid handle, or an invalid key of the tuple sort, ends with a diagnostic.",
 ["inputs","histories"],
 "all tuple shapes and key rows, column counts from zero to beyond capacity on each rank, number of ranks, key lists, and histories of setup/free with several handles",
 "The capacity-loss path is never exercised by any test; the Fortran tests run one ample-capacity pattern.",
 ["src/fcrystal.c","src/sarray_transfer.c","src/sarray_sort.c"],
 [("capping of received rows","src/sarray_transfer.c cap_rows"),("three-part column packing","src/fcrystal.c fcrystal_tuple_transfer, src/sarray_transfer.c pack_more/unpack_more"),("handle table","src/fcrystal.c handle_array")],None,["arrays, guard zones around them, returned count"])

p("C11","Fortran gather/scatter interface matches the C one for every datatype",
 "Each Fortran gather/scatter entry point (single, packed, up to six arrays, strided fields, unique, and the nonblocking ones with a later wait) has exactly the effect of its C counterpart for all datatypes 1-3, operations 1-4 and transpose values. Any number of handles may be live, each bound to its own data; an invalid handle, datatype, operation or processor count ends with a diagnostic and a failing exit instead of computing.",
 ["inputs","histories"],
 "all datatype/operation/transpose/entry-point combinations, field strides and counts, handle setup/use/free histories, and all invalid parameter values next to the valid range",
 "The Fortran tests only use double precision; the fields entry point is not called at all and no invalid call is made.",
 ["src/gs.c"],
 [("datatype translation","src/gs.c fgs_dom"),("parameter checks","src/gs.c fgs_check_parms, fgs_check_handle"),("field pointer list","src/gs.c fgs_fields"),("handle table","src/gs.c fgs_info")],[("handle table","Fortran handle to C handle","src/gs.c fgs_info/fgs_n")],["arrays after the call; exit status"])

p("C12","Point location finds every point in the mesh, wherever it lives",
 "For a valid mesh, every point inside or on it is reported found by some existing (process, element) whose geometry at the returned reference coordinates (inside the reference element) reproduces the point to the given tolerance, with the returned squared distance matching; code 'inside' is only given for such points, code 'border' only with coordinates on the element boundary, and points beyond the expanded bounding boxes are reported not found. The outcome does not depend on how elements and points are distributed over processes, on hash-table sizes, batch size or data strides.",
 ["inputs","configurations"],
 "all combinations of mesh family (2-D/3-D, affine, curved, several elements), element-to-rank assignment incl. empty ranks, point placement incl. vertices, edges, faces, element interfaces, outside, query-rank assignment incl. ranks without points, hash sizes, batch sizes, polynomial orders and strides within bounds",
 "Tests sample random points on one mesh family with fixed hash and batch parameters, print a maximal error and never assert codes, distances or partition independence.",
 ["src/findpts.c","src/findpts_imp.h","src/findpts_local_imp.h","src/findpts_el_2.c","src/findpts_el_3.c"],
 [("local then global hash lookup and routing","src/findpts_imp.h findptsms"),("element candidates by hash and bounding box","src/findpts_local_imp.h map_points_to_els"),("constrained Newton search","src/findpts_el_2.c, src/findpts_el_3.c"),("merge of remote results","src/findpts_imp.h")],[("global hash","cell to process lists","src/findpts_imp.h struct hash_data")],["code, proc, el, r, dist2 outputs"])

p("C13","Field evaluation at located points is exact polynomial interpolation",
 "Evaluating a field at located points stores for every found point exactly the value of the owning element's polynomial at the returned reference coordinates, wherever the element lives, and leaves the outputs of unfound points untouched. This holds for any field, any number of evaluations, new locations followed by new evaluations, any strides and any distribution of points; local evaluation gives the same values.",
 ["histories","inputs","configurations"],
 "all histories of locate/evaluate calls up to a bound with changing points and fields, point/element distributions over ranks, strides, batch sizes, polynomial degrees",
 "The test evaluates once after one location and looks at an error maximum.",
 ["src/findpts_imp.h","src/findpts_local_imp.h","src/findpts_el_2.c","src/findpts_el_3.c","src/tensor.h"],
 [("cached evaluation points","src/findpts_imp.h setup_fev_aux, findptsms_eval"),("return routing by index","src/findpts_imp.h findptsms_eval"),("tensor-product evaluation","src/findpts_el_2.c / findpts_el_3.c findpts_el_eval")],[("saved points","points of the last location","src/findpts_imp.h savpt, fevsetup")],["output array after each evaluation"])

p("C14","Multi-session search respects session ids and the priority field",
 "A multi-session search returns only elements whose session differs from (or, on request, equals) that of the point; where several eligible sessions contain the point it picks the one whose interpolated priority field is largest there; a point no eligible session contains is not found. The choice does not depend on how the sessions and points are laid out over processes.",
 ["inputs","configurations"],
 "all assignments of 2-6 overlapping sessions to ranks, priority field orderings, session of each point, match modes and point positions within bounds (points within the box tolerance of a session but outside it, and exact ties of the priority, are not judged)",
 "The multi-session test uses one two-session overlap with one priority field and prints an error only.",
 ["src/findpts_imp.h","src/findpts_local_imp.h"],
 [("session filter","src/findpts_local_imp.h map_points_to_els"),("per-session then overall winner","src/findpts_imp.h findptsms merge")],None,["code, proc, el, r, dist2"])

p("C15","Element bounding boxes always contain the element",
 "For every valid (not folded-over) element geometry, every polynomial order and every bounding resolution of at least twice the number of nodes, the axis-aligned box and the oriented box computed for it contain every point of the element, so the containment test used to discard candidates never rejects a point of the element; boxes are also not degenerate, and each element of a batch gets its own box.",
 ["inputs"],
 "all nodal geometries on a small coordinate lattice (curved, skewed, rotated, small and large scale), orders, bounding resolutions, tolerances and element positions in the batch within bounds, with containment checked on a dense reference grid",
 "The obbox test prints boxes for one random element.",
 ["src/obbox.c","src/obbox.h","src/lob_bnd.c"],
 [("Jacobian-based rotation and polynomial bounds","src/obbox.c obbox_calc_2, obbox_calc_3"),("containment tests","src/obbox.h obbox_test_2, obbox_test_3")],None,["box fields; result of the containment test"])

p("C16","Polynomial bounds really bound the polynomial",
 "The piecewise-linear lower and upper bounds computed for a polynomial given by nodal values are below and above it everywhere on the reference domain in one, two and three dimensions, and the returned range contains every value; for constant and linear data the bounds are tight.",
 ["inputs"],
 "all nodal value vectors over a small alphabet (hence, with linearity of the tables, every basis direction and sign pattern), degrees and resolutions within bounds, per dimension",
 "The test tries random polynomials for one degree and prints the gap.",
 ["src/lob_bnd.c","src/lob_bnd.h"],
 [("precomputed basis bounds","src/lob_bnd.c lob_bnd_setup"),("linear fit plus bound of the remainder","src/lob_bnd.c lob_bnd_lin_*")],None,["bounds at and between the Chebyshev nodes"])

p("C17","Quadrature and Lagrange bases are exact to rounding for every order",
 "For every number of points the Gauss and Lobatto nodes are ordered, symmetric and inside the interval, the weights positive, and the quadrature exact for all polynomials of the guaranteed degree; Lagrange bases (general and Lobatto-specialised) reproduce every polynomial up to their degree with first and second derivatives at every evaluation point, including nodes and end points.",
 ["inputs"],
 "every number of points up to a bound (through the tabulated, generated and iterative ranges), every monomial of guaranteed degree, every derivative order and a grid of evaluation points including all nodes and both end points",
 "The poly test checks derivative consistency for a few orders with loose output only; most tabulated orders and the end points are not covered.",
 ["src/poly.c","src/poly_imp.h","src/poly.h","src/gen_poly_imp.c"],
 [("Newton for nodes","src/poly.c gauss_nodes, lobatto_nodes"),("barycentric-free Lagrange recurrences","src/poly.c lagrange_*"),("tabulated Lobatto formulae","src/poly_imp.h gll_lag_*")],None,["nodes, weights, basis values and derivatives"])

p("C18","Tensor-product kernels compute the mathematical product",
 "Matrix-vector, matrix-matrix, dot-product and tensor-product interpolation/gradient kernels compute the documented products for all dimensions including one, never read or write outside the documented extents (including scratch), and give the same results with the built-in, the BLAS and an application-supplied back end.",
 ["inputs","configurations"],
 "all dimension combinations up to a bound, unit-vector operands (by bilinearity these determine the result for all operands) plus dense exact operands, all three back ends",
 "There is no test of the tensor kernels; they are exercised indirectly for square sizes only.",
 ["src/tensor.c","src/tensor.h"],
 [("naive kernels","src/tensor.c"),("BLAS mapping","src/tensor.h cblas macros"),("tensor compositions","src/tensor.h tensor_i*, tensor_ig*, tensor_2t, tensor_3t")],None,["output arrays, guard zones"])

p("C19","Every create/use/free history returns all resources",
 "After any sequence of creating, using and freeing library objects (gather/scatter handles of every method, routers, record arrays, point locators, Fortran handles, nonblocking operations, unique flagging), no memory, communicator, request or message belonging to the freed objects remains, and nothing is released twice or used after release.",
 ["histories","configurations"],
 "all create/use/free histories up to a bound over every object kind, with every method choice and several live objects at once",
 "No test looks at leaks; every test process exits soon after use.",
 ["src/gs.c","src/crystal.c","src/findpts.c","src/findpts_imp.h","src/findpts_local_imp.h","src/findpts_el_2.c","src/findpts_el_3.c","src/fcrystal.c","src/comm.h"],
 [("paired setup/free functions","src/gs.c gs_free, pw_free, cr_free, allreduce_free; src/findpts_imp.h findptsms_free; src/crystal.c crystal_free")],None,["allocator, communicator and request accounting at the end of each history"])

p("C20","Running out of memory anywhere ends with a diagnostic, never a crash",
 "Whenever an allocation of nonzero size inside the library fails, at any point of any operation, the process reports a diagnostic naming the failed allocation and terminates with a failing status; it never dereferences the missing memory, never continues with it, and never returns to the caller as if it had succeeded.",
 ["fault_sequences"],
 "every allocation (the k-th, for every k) made by every public operation, on every rank",
 "Tests never inject allocation failures.",
 ["src/mem.h","src/fail.c","src/fail.h"],
 [("checked allocation wrappers","src/mem.h smalloc, scalloc, srealloc"),("diagnostic and exit","src/fail.c fail, die")],None,["exit status and printed diagnostic after each injected failure"])

p("C21","Dynamic arrays keep their contents through any growth history",
 "Through any sequence of initialise, reserve, resize, concatenate and free, a dynamic array has room for at least what was asked, keeps its stored elements and count unchanged except as documented, accepts an empty initial state, and hands out a pointer valid for the whole reserved extent, and growing one element at a time takes only logarithmically many reallocations; alignment helpers return the smallest suitably aligned position not before the offset.",
 ["histories"],
 "all operation sequences up to a depth over several sizes, element sizes and self/empty operands",
 "No test addresses the dynamic array directly.",
 ["src/mem.h"],
 [("burst growth","src/mem.h array_reserve_"),("concatenation","src/mem.h array_cat_"),("alignment","src/mem.h align_as_")],None,["array fields and contents after each step"])

p("C22","Library traffic is isolated from the application and between handles",
 "Messages and collectives of one library object are never matched with those of the application on the communicator passed in, nor with those of another object: with application messages of any tag pending, and several objects in use in different order on different ranks where permitted, every party receives only its own data.",
 ["schedules","histories"],
 "all placements of pending application sends/receives (including wildcard receives) around library calls, several objects over the same parent communicator or over split communicators, small numbers of ranks",
 "Tests never have other traffic pending on the communicator.",
 ["src/comm.h","src/gs.c","src/crystal.c","src/findpts_imp.h"],
 [("duplicated communicator per object","src/comm.h comm_init, comm_dup; src/gs.c gs_setup; src/crystal.c crystal_init")],None,["contents received by application and library"])

p("C23","The single-process build behaves like the MPI build on one process",
 "Built without MPI, the library links, and every operation (gather/scatter with every method and packing, unique flagging, routing and record transfer, reductions and scans, communicator duplicate and split, point location and evaluation) gives the same results as the MPI build run on one process.",
 ["configurations","inputs"],
 "all single-rank cases of the other properties' bounded input spaces, in the build without MPI",
 "The test suite only builds with MPI.",
 ["src/comm.h","src/comm.c","src/crystal.c","src/gs.c"],
 [("dummy communication layer","src/comm.h, src/comm.c without GSLIB_USE_MPI")],None,["results on one process"])

p("C24","Fortran point location keeps every handle's own mesh; bad calls are refused",
 "Each Fortran point-location handle (two- or three-dimensional, single- or multi-session) answers location, evaluation and local evaluation for the mesh, field sizes and session it was set up with, as the C interface does, whatever other handles are created, used or freed in between and in whatever order; any number may be live. A freed, negative or never issued handle, a dimension other than 2 or 3, or a process count that differs from the communicator's ends with a diagnostic and a failing exit in every entry point.",
 ["histories","inputs"],
 "all histories of creating, using and freeing handles of every kind to a depth, numbers of live handles, and every invalid handle, dimension and process count in each of the ten entry points",
 "The repository has no Fortran point-location test with more than one handle, none for the multi-session entry points, and makes no invalid call.",
 ["src/findpts.c","src/comm.h"],
 [("handle table","src/findpts.c handle_array, handle_n"),("handle check","src/findpts.c CHECK_HANDLE"),("dimension check","src/findpts.c ffindpts_setup, ffindptsms_setup"),("process count check","src/comm.h comm_init_check_")],[("handle table","Fortran handle to C object","src/findpts.c handle_array/handle_n")],["results per handle; exit status"])
p("C25","The closest-point search ends, at a closest point of the element",
 "For every valid (not folded-over) element and every target point, inside, on, near or far from it, the closest-point search ends and returns reference coordinates inside the reference element at which the distance to the target equals the reported one and cannot be reduced by moving within the element; no node of the element is closer. For a target of the element the distance is zero; for a straight-sided element the point is its exact projection. It is reported as unconstrained only if the target lies in the element, and the result belongs to the element and target given, whatever was searched before and however targets are grouped in batches.",
 ["inputs"],
 "all nodal geometries on a small lattice (skewed, curved, thin, rotated, scaled, shifted), orders, tolerances, batch sizes, and target lattices covering the inside, boundary, vicinity and far field of the element",
 "The tests search for points inside one smooth random element only, and print the number of failures.",
 ["src/findpts_el_2.c","src/findpts_el_3.c","src/poly.c"],
 [("trust-region step with bounds","src/findpts_el_2.c newton_area; src/findpts_el_3.c newton_vol, newton_face"),("constraint release","src/findpts_el_3.c findpt_face, findpt_edge, findpt_pt"),("step rejection","src/findpts_el_3.c reject_prior_step_q"),("grouping by constraints","src/findpts_el_3.c findpts_el_3")],None,["r, dist2 and flags of every point; termination"])

p("C26","Every documented choice of integer types gives the same correct behaviour",
 "Whichever local and global integer types the library is built with (int, long or long long each, as types.h documents), it builds, and every operation keeps its guarantees over the whole range of those types: gather/scatter, unique flagging, routing and record transfer, sorts, reductions and scans, the Fortran interfaces (with integers of that width), point location, evaluation and sessions, and object life cycles. No memory outside the caller's or library's objects is touched.",
 ["configurations","inputs"],
 "combinations of integer types x the bounded input spaces of the other properties, with identifiers, keys, processor fields and strides of the configured width",
 "The tests are built with one combination only (int and long long).",
 ["src/types.h","src/gs_defs.h","src/sort.c","src/sarray_transfer.c","src/findpts_imp.h","src/findpts_local_imp.h","src/findpts.c","src/gs.c","src/comm.h"],
 [("integer types","src/types.h sint, uint, slong, ulong"),("choice of sort per type","src/sort.h sortv, sortv_long, sortp, sortp_long; src/sort.c"),("reduction domains per type","src/gs_defs.h gs_sint, gs_slong; src/comm.h comm_reduce_sint"),("Fortran integers","src/gs.c fgs_dom; src/findpts.c")],None,["results; memory accesses"])

p("C27","Copies of the library with different prefixes coexist in one program",
 "Two or more copies of the library built with different GSLIB_PREFIX / GSLIB_FPREFIX (and possibly other Fortran naming, integer types or options) can be linked into one program: every external name carries the configured prefix or mangling, and whatever sequence of operations is performed on objects of either copy, each copy works exactly as if it were alone.",
 ["histories","configurations"],
 "sequences of create, use and free of every kind of object in up to three copies, with objects of the other copies live",
 "The tests link one copy only.",
 ["src/name.h","src/*.h (prefixed names)","src/fail.c","src/findpts_local_imp.h","src/gs.c","src/fcrystal.c","src/findpts.c"],
 [("external names","src/name.h GS_PREFIXED_NAME, GS_FORTRAN_NAME"),("state of the copies","static tables in src/gs.c, src/fcrystal.c, src/findpts.c; comm_gbl_id in src/comm.c")],None,["linking; results of every operation"])
p("C28","A reported failure prints its whole message and ends with its status",
 "fail and vfail print one complete line (the prefix, the process number, the file and line given, and the formatted message, of any length, without touching other memory) and then end the process with exactly the given status; diagnostic and vdiagnostic print the same line and return; die ends the process. Built with GSLIB_USE_USR_EXIT the process ends through the user's exit handler, called once, after the message is printed, with the given status.",
 ["inputs","configurations"],
 "entry points x statuses x lengths of message, prefix and file name x reporting rank x both exits",
 "No test reports a failure.",
 ["src/fail.c","src/fail.h"],
 [("message","src/fail.c vdiagnostic"),("end","src/fail.c die, vfail, fail")],None,["text printed; exit status; handler calls"])
p("C29","Operations send no more than their method needs",
 "For P processes: a gather/scatter with the pairwise method sends at most one message per neighbour and operation, however many fields, carrying one value per field and shared id whose value the neighbour needs, and nothing to others; with the crystal router at most ceil(log2 P) messages; with all-reduce one reduction over the shared ids. The router and record transfer send at most two messages per stage and rank, and no word makes more than ceil(log2 P) hops. Reductions, scans, setup, unique flagging and point location send O(log P) messages per rank, independent of the number of entries, records, fields and points.",
 ["inputs","configurations"],
 "sharing topologies x methods x types x packings x transpose x process counts",
 "Tests look at results, not at what is sent: a neighbourhood operation that talks to everybody passes them.",
 ["src/gs.c","src/crystal.c","src/sarray_transfer.c","src/comm.c","src/findpts_imp.h"],
 [("pairwise","src/gs.c pw_exec, pw_comm_setup"),("crystal router","src/gs.c cr_exec, cr_schedule; src/crystal.c crystal_router"),("all-reduce","src/gs.c allreduce_exec"),("reductions","src/comm.c"),("point location","src/findpts_imp.h")],None,["messages and bytes per destination; collective calls"])

p("C30","Arrays larger than 4 GB are addressed correctly",
 "Where counts and indices fit their integer types, an operation is correct however large the memory its arguments span: vector gather/scatter at entries whose data lie beyond 2^31 or 2^32 bytes or elements, Fortran fields any stride apart, sorts of keys and records and transfers with processor fields at any distance, arrays of records larger than 4 GB, reductions and scans of more than 4 GB, and point location and evaluation with any argument strides give the result they give for small arrays, and touch nothing outside the entries in use.",
 ["inputs","configurations"],
 "positions of the entries in use around 2^31 and 2^32 bytes and elements x operations x types; counts x distances x key types; strides of every strided argument",
 "No test array is larger than some megabytes; the memory for one that is is not there in a test run.",
 ["src/gs_local.c","src/sort_imp.h","src/sarray_sort.c","src/sarray_transfer.c","src/comm.c","src/findpts_imp.h","src/findpts_local_imp.h","src/gs.c"],
 [("offsets of vector entries","src/gs_local.c gather_vec, scatter_vec, init_vec"),("strided keys","src/sort_imp.h INDEX_PTR, INC_PTR"),("record arrays","src/sarray_sort.c, src/sarray_transfer.c"),("sizes of reductions","src/comm.c scan_imp, allreduce_imp"),("strided arguments","src/findpts_imp.h AT; src/findpts_local_imp.h AT, CAT, CATD")],None,["results; memory written"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
