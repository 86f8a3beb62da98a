"""The checks: which harness is explored for which property, and what it covers."""
LEVEL = 'model_checking'
CHECKS = {}


def check(pid, technique, note, rule, assumptions, runs, level=LEVEL):
    CHECKS[pid] = dict(technique=technique, level=level, level_note=note, rule=rule, assumptions=assumptions, runs=runs)


SIMASSUME = ['the simulated message layer (sim/mpisim.c) implements the MPI standard for the calls gslib makes',
             'clang 18 -O1, the AddressSanitizer runtime and the C library are trusted',
             'ranks interact only through message-layer calls, so interleavings are explored at those calls']
SEQASSUME = ['clang 18 -O1, the AddressSanitizer runtime and the C library are trusted']
REAL = 'The real library code is executed on every explored case (no separate model); '
STATELESS = 'stateless model checking of the real code: '
UAR = 'detect_stack_use_after_return=1'

check('C01', STATELESS + 'exhaustive enumeration of id layouts x methods x domains x operations x packings on a simulated MPI layer',
      REAL + 'exhaustive within the stated bounds on ids, ranks and values; the oracle is the definition of the reduction evaluated in exact arithmetic. Larger layouts than the bounds are covered only by structured families.',
      'every id vector over {1,2,-1,0,-2,..} up to a length per rank for 1-3 ranks and structured families up to 9 ranks, each with every method, domain, operation, transpose and packing; a state is a distinct (case, result/message digest)',
      SIMASSUME, [dict(name='inputs', harness='h_gs_inputs', npmax=9, budget=(300, 2400))])

check('C02', STATELESS + 'delay-bounded exploration of all rank interleavings and message-layer behaviours',
      REAL + 'all schedules and buffering/delivery decisions within a deviation bound from six base policies; setup, use and free of handles; deadlock, truncation, stray messages, use of send buffers in flight and result differences are violations.',
      'layout x method x policy x every set of at most `bound` deviations at scheduling, send, receive and collective choice points; a state is a distinct vector of per-rank message-layer histories',
      SIMASSUME, [dict(name='sched', harness='h_gs_sched', npmax=9, budget=(300, 3000))])

check('C03', STATELESS + 'exhaustive start/wait histories over several handles with explored completion timing',
      REAL + 'all start/wait histories to the depth bound over mixed-method handles, compared entry by entry with the exact blocking result; also built without nonblocking collectives.',
      'every history of starts, waits and blocking operations up to the depth; every method x operation x domain x packing x transpose combination; bounded schedule deviations',
      SIMASSUME, [dict(name='nb', harness='h_gs_nb', npmax=7, asan=UAR, budget=(300, 3000)),
                  dict(name='nb-default', harness='h_gs_nb', variant='default', defs=['-DNO_NBC'], npmax=7, asan=UAR, budget=(100, 1000))])

check('C04', STATELESS + 'exhaustive enumeration of flagged id layouts',
      REAL + 'exhaustive over small layouts including pre-flagged and repeated ids; the flag result and the behaviour of unique handles are judged from the definition.',
      'every id vector over a small alphabet of flagged, unflagged and zero ids for 1-3 ranks, structured families to 9 ranks, every method', SIMASSUME,
      [dict(name='unique', harness='h_gs_unique', npmax=9, budget=(300, 3000))])

check('C05', STATELESS + 'exhaustive enumeration of clock readings during method tuning',
      REAL + 'every assignment of {fast, equal, slow} timings to candidates and ranks within the bounds, on the real auto_setup under a controlled clock.',
      'every per-rank clock script over a small alphabet for each tuning run x layouts x ranks', SIMASSUME,
      [dict(name='auto', harness='h_gs_auto', npmax=7, budget=(300, 3000))])

check('C06', STATELESS + 'exhaustive send patterns with bounded schedule exploration on the real crystal router',
      REAL + 'every target/length pattern for small rank counts, structured patterns to 40 ranks, delay-bounded schedules; multiset of delivered messages compared with the one sent.',
      'every send pattern within the bounds x policies x bounded deviations, repeated rounds', SIMASSUME,
      [dict(name='crystal', harness='h_crystal', npmax=40, budget=(300, 3000))])

check('C07', STATELESS + 'exhaustive destination assignments, record layouts and parallel arrays',
      REAL + 'every destination assignment for small counts, record sizes and field offsets from a table, structured patterns to 17 ranks; records compared byte by byte, round trips included.',
      'every destination vector within the bounds x record layout x source flag x number of parallel arrays', SIMASSUME,
      [dict(name='sarray', harness='h_sarray', npmax=17, budget=(300, 3000))])

check('C08', 'exhaustive enumeration of key sequences, lengths, strides and starting permutations on the real sort code',
      REAL + 'all key sequences over small alphabets at each digit position plus lengths across every algorithm switch point; the oracle is a stable insertion sort.',
      'every key sequence over an alphabet up to a length; every length through the switch points x key distribution x stride x start permutation x scratch state', SEQASSUME,
      [dict(name='sort', harness='h_sort', npmax=1, budget=(300, 3000))])

check('C09', STATELESS + 'every rank count, operation, type and length, with bounded schedule exploration',
      REAL + 'every rank count to the bound with every operation/type/length against exact folds, on world, duplicated and split communicators, with schedule deviations for small rank counts; both builds.',
      'ranks x operation x type x length x call x communicator, policies and bounded deviations', SIMASSUME,
      [dict(name='comm', harness='h_comm', npmax=40, budget=(300, 3000)),
       dict(name='comm-default', harness='h_comm', variant='default', defs=['-DNO_NBC'], npmax=40, budget=(100, 1000))])

check('C10', STATELESS + 'exhaustive key rows, tuple shapes and capacities through the Fortran entry points',
      REAL + 'every destination row and capacity around the received count for small shapes, handle histories, invalid handles; guard zones by AddressSanitizer.',
      'every key row x shape x capacity within the bounds, sort key lists, setup/free histories', SIMASSUME,
      [dict(name='ftuple', harness='h_ftuple', npmax=17, budget=(300, 3000))])

check('C11', STATELESS + 'exhaustive Fortran call combinations, handle histories and invalid arguments',
      REAL + 'each entry point x datatype x operation x transpose x layout against the exact reduction; every handle history to the depth bound; every listed invalid argument must end in a diagnostic exit.',
      'entry point x datatype x op x transpose x layout x method; all handle histories up to a length; all single invalid arguments', SIMASSUME,
      [dict(name='fgs', harness='h_fgs', npmax=9, asan=UAR, budget=(300, 3000))])

check('C12', STATELESS + 'every assignment of elements and queries to ranks over families of meshes, compared with extended-precision geometry',
      REAL + 'each located point is judged by evaluating the reported element at the reported coordinates in extended precision, and by locating it again on one process.',
      'mesh family x subdivision x orders x every element-to-rank assignment x query assignment x hash sizes x batch size x memory layout x interface; delivery policies and bounded deviations', SIMASSUME,
      [dict(name='d2', harness='h_findpts', defs=['-DDIM=2'], npmax=17, asan=UAR, budget=(200, 2500)),
       dict(name='d3', harness='h_findpts', defs=['-DDIM=3'], npmax=17, asan=UAR, budget=(200, 2500))])

check('C13', STATELESS + 'every locate/evaluate history to a depth and every element/query distribution, against extended-precision interpolation',
      REAL + 'every value is compared with the owning element\'s polynomial evaluated in extended precision at the reported coordinates; outputs of unfound points and gaps between strided outputs are watched.',
      'every history of locate/evaluate actions up to a length on 1-3 ranks x interface; mesh x order x distribution x batch x layout for single evaluations', SIMASSUME,
      [dict(name='d2', harness='h_fpeval', defs=['-DDIM=2'], npmax=17, asan=UAR, budget=(200, 2500)),
       dict(name='d3', harness='h_fpeval', defs=['-DDIM=3'], npmax=17, asan=UAR, budget=(200, 2500))])

check('C14', STATELESS + 'every assignment of sessions to ranks x geometry x priority ordering x match mode x query distribution',
      REAL + 'the eligible containing sessions and the largest priority are computed directly from the session geometry; points within the box tolerance of a session but outside it are not judged.',
      'sessions x ranks x geometry x priority field x match x query distribution x layout x interface; delivery policies and bounded deviations', SIMASSUME,
      [dict(name='d2', harness='h_fpms', defs=['-DDIM=2'], npmax=12, asan=UAR, budget=(200, 2500)),
       dict(name='d3', harness='h_fpms', defs=['-DDIM=3'], npmax=12, asan=UAR, budget=(200, 2500))])

check('C21', 'exhaustive enumeration of dynamic-array operation sequences on the real code',
      REAL + 'every operation sequence to the depth bound over six element types and three initial states, judged after each step by a plain model of the contents; the whole reserved extent is written under AddressSanitizer.',
      'every sequence of 20 operations (reserve, push, cat, resize, free, init, pop on two arrays) up to the depth x element type x initial state; alignment helpers at every offset', SEQASSUME,
      [dict(name='array', harness='h_array', npmax=1, budget=(300, 3000))])

check('C16', 'exhaustive enumeration of nodal vectors over a small alphabet x every order and resolution on the real bound code',
      REAL + 'bounds are compared with extended-precision values of the polynomial on a grid refining every bounding interval; exhaustive over {-1,0,1} vectors for small orders, all basis pairs above.',
      'order x resolution x {-1,0,1}-vectors (n<=7) or all signed basis pairs, monomials, Legendre polynomials, sign steps; 2-D and 3-D basis pairs and sign patterns; batches', SEQASSUME,
      [dict(name='lobbnd', harness='h_lobbnd', npmax=1, budget=(300, 3000))])

check('C15', 'exhaustive enumeration of element geometries on a lattice x orders x resolutions on the real box code',
      REAL + 'every point of a dense reference grid, evaluated in extended precision, must pass the library\'s own containment tests; boxes of affine elements must be exact.',
      'every quadrilateral with corners on a 3x3 lattice, every hexahedron with two corners displaced on a lattice, every displaced node and pair of nodes (axis directions; all directions for small orders), curved and affine maps x order x resolution x tolerance x rotation/scale/offset x position in a batch; folded-over geometries are skipped', SEQASSUME,
      [dict(name='d2', harness='h_obbox', defs=['-DDIM=2'], npmax=1, budget=(300, 3000)),
       dict(name='d3', harness='h_obbox', defs=['-DDIM=3'], npmax=1, budget=(300, 3000))])

check('C17', 'exhaustive enumeration of orders, degrees and evaluation points on the real quadrature and basis code',
      REAL + 'every order to the bound (through the tabulated, generated and iterative ranges) against extended-precision nodes, weights and basis functions, with tolerances from exact magnitude sums.',
      'every number of points to the bound x every monomial and Legendre polynomial of guaranteed degree; Lagrange bases on Lobatto and seven other node families x every derivative order x nodes, end points, points between, beside and outside', SEQASSUME,
      [dict(name='poly', harness='h_poly', npmax=1, budget=(300, 3000))])

check('C18', 'exhaustive enumeration of dimension combinations and unit-vector operands on the real kernels, both back ends',
      REAL + 'bilinear kernels are determined by unit-vector operands, all of which are run for every dimension combination to the bound (integers, compared exactly); extents by AddressSanitizer with outputs and scratch pre-filled with NaN.',
      'kernel x every dimension combination to the bound x every unit vector of every operand plus dense integer operands x {built-in, BLAS, application-supplied product} back end', SEQASSUME + ['the installed OpenBLAS is trusted'],
      [dict(name='builtin', harness='h_tensor', npmax=1, budget=(300, 3000)),
       dict(name='cblas', harness='h_tensor', variant='cblas', npmax=1, link=['-lopenblas'], budget=(300, 3000)),
       dict(name='mxm', harness='h_tensor', variant='mxm', defs=['-DOWN_MXM'], npmax=1, budget=(300, 3000))])

check('C19', STATELESS + 'every create/use/free history to a depth over every kind of object, with memory, communicator and request accounting',
      REAL + 'reachability of every library block, live communicators, requests and messages are examined at the end of each history, and the number of live blocks after repeated rounds must not grow; double release and use after release are caught by AddressSanitizer and the message layer.',
      '25 object kinds x variants x 1-5 ranks; every interleaving of the life cycles of every pair of kinds; every history over ten triples of objects to the depth bound; parent communicator freed early; bounded schedule deviations', SIMASSUME,
      [dict(name='res', harness='h_res', npmax=7, asan=UAR, budget=(300, 3000))])

check('C20', STATELESS + 'exhaustive injection of a failing allocation at every allocation of every operation on every rank',
      REAL + 'each allocation made by the library in each scenario fails in one execution of its own; anything but a diagnostic naming the allocation and a failing exit of that rank is a violation (continuing, crashing, hanging, or returning).',
      '25 object kinds x variants x 1-3 ranks (create, uses, free, create again), all pairs of kinds; for each, every (rank, k-th allocation)', SIMASSUME,
      [dict(name='fault', harness='h_fault', npmax=5, budget=(300, 3000))])

check('C22', STATELESS + 'every placement of pending application traffic around every kind of library object, and every per-rank start order of nonblocking operations',
      REAL + 'application sends, specific and wildcard receives and nonblocking collectives pend on the world communicator or the one passed in, with the tags the library itself uses; every payload on both sides is checked.',
      'object kind x communicator x traffic type x post/complete points x tag set x 1-4 ranks; every combination of per-rank start orders of three operations; pairs of kinds over the world and over its halves in different orders; delivery policies and bounded deviations', SIMASSUME,
      [dict(name='traffic', harness='h_traffic', npmax=6, asan=UAR, budget=(300, 3000)),
       dict(name='traffic-default', harness='h_traffic', variant='default', defs=['-DNO_NBC'], npmax=6, asan=UAR, budget=(100, 1000))])

NOMPI = lambda n, h, np, asan='', ref='default', **k: dict(dict(name=n, harness=h, variant='nompi', defs=['-DNO_NBC'] + k.pop('defs', []), npmax=np, asan=asan, only_np=1, compare=ref, build_is_property=True, tolerate=['transpose-flagged-primary'], budget=(120, 900)), **k)
check('C23', 'every single-process case of the other checks explored in the build without MPI and compared case by case with the MPI build on one process',
      REAL + 'the library is rebuilt without a message layer (no mpi.h on the include path, no undefined MPI symbol allowed); every single-process case of the listed harnesses is judged by its own oracle there, and its results must be identical to those of the MPI build.',
      'all cases on one process of: gather-scatter inputs, nonblocking histories, unique, tuning, crystal router, record transfer, collectives, Fortran interfaces, find-points locate/evaluate/sessions, object life cycles', SEQASSUME,
      [NOMPI('gs', 'h_gs_inputs', 1), NOMPI('nb', 'h_gs_nb', 1, UAR), NOMPI('unique', 'h_gs_unique', 1), NOMPI('auto', 'h_gs_auto', 1),
       NOMPI('crystal', 'h_crystal', 1), NOMPI('sarray', 'h_sarray', 1), NOMPI('comm', 'h_comm', 1), NOMPI('ftuple', 'h_ftuple', 1), NOMPI('fgs', 'h_fgs', 1, UAR),
       NOMPI('locate2', 'h_findpts', 1, defs=['-DDIM=2']), NOMPI('locate3', 'h_findpts', 1, defs=['-DDIM=3']),
       NOMPI('eval2', 'h_fpeval', 1, defs=['-DDIM=2']), NOMPI('eval3', 'h_fpeval', 1, defs=['-DDIM=3']),
       NOMPI('sess2', 'h_fpms', 1, defs=['-DDIM=2']), NOMPI('sess3', 'h_fpms', 1, defs=['-DDIM=3']),
       NOMPI('res', 'h_res', 1, UAR), NOMPI('ffp', 'h_ffp', 1, UAR)])

check('C24', STATELESS + 'every create/use/free history of Fortran point-location handles to a depth, every invalid handle, dimension and process count',
      REAL + 'each live handle must answer for its own mesh (known affine geometry) after every history; every listed invalid call must end in a diagnostic exit.',
      'every history over ten operations up to a length on 1-3 ranks; 1-16 live handles; entry point x invalid handle x live handles x kinds; dimension and process-count errors', SIMASSUME,
      [dict(name='ffp', harness='h_ffp', npmax=3, asan=UAR, budget=(300, 3000))])

check('C25', 'exhaustive enumeration of element geometries on a lattice x lattice targets on the real closest-point search',
      REAL + 'element, constraints and distance are evaluated in extended precision: end, distance, no node closer, no descent direction within the element; exact projection (every set of active constraints) for straight-sided elements.',
      'every quadrilateral with corners on a 3x3 lattice, every hexahedron with two corners displaced on a lattice, every displaced node and pair of nodes (small orders), curved and affine maps x order x rotation/scale/offset x tolerance x batch size; targets: a lattice in and around the element, far away, every point of a reference lattice and points off the boundary; two elements in turn', SEQASSUME,
      [dict(name='d2', harness='h_elpt', defs=['-DDIM=2'], npmax=1, budget=(300, 3000)),
       dict(name='d3', harness='h_elpt', defs=['-DDIM=3'], npmax=1, budget=(300, 3000))])

def CFG(v, names):
    d2, d3 = dict(defs=['-DDIM=2']), dict(defs=['-DDIM=3'])
    H = dict(gs=('h_gs_inputs', 9, '', 2), nb=('h_gs_nb', 7, UAR, 2), sched=('h_gs_sched', 9, '', 3), unique=('h_gs_unique', 9, '', 2), auto=('h_gs_auto', 7, '', 2), crystal=('h_crystal', 40, '', 3), sarray=('h_sarray', 17, '', 2), sort=('h_sort', 1, '', 1),
             comm=('h_comm', 40, '', 4), ftuple=('h_ftuple', 17, '', 17), fgs=('h_fgs', 9, UAR, 2), locate2=('h_findpts', 17, UAR, 2, d2), locate3=('h_findpts', 17, UAR, 2, d3), eval2=('h_fpeval', 17, UAR, 2, d2), eval3=('h_fpeval', 17, UAR, 2, d3),
             sess2=('h_fpms', 12, UAR, 3, d2), sess3=('h_fpms', 12, UAR, 2, d3), res=('h_res', 7, UAR, 1), fault=('h_fault', 5, '', 2), ffp=('h_ffp', 3, UAR, 1), traffic=('h_traffic', 6, UAR, 3))
    r = []
    for n in names.split():
        h = H[n]
        b = dict(dict(harness=h[0], variant=v, asan=h[2], npmax=h[1], build_is_property=True, tolerate=['transpose-flagged-primary'], budget=(60, 900)), **(h[4] if len(h) > 4 else {}))
        # every quick run is bounded by a process count; the thorough tier runs every harness with all of its processes
        r.append(dict(b, name=f'{v}-{n}', tier='quick', only_np=h[3]))
    for n in H:
        h = H[n]
        b = dict(dict(harness=h[0], variant=v, asan=h[2], npmax=h[1], build_is_property=True, tolerate=['transpose-flagged-primary'], budget=(60, 200)), **(h[4] if len(h) > 4 else {}))
        r.append(dict(b, name=f'{v}-{n}-all', tier='thorough', harness_tier=0))
    return r
check('C26', 'every bounded case of the other checks explored on the real library built with each documented choice of integer types',
      REAL + 'the library and the harnesses are rebuilt with each choice of the local (sint) and the global (slong) integer type in types.h; each case is judged by its harness\'s own oracle, with identifiers that use the whole width of the type.',
      'cases of: gather-scatter, unique, tuning, crystal router, record transfer, sorts, collectives, Fortran interfaces, point location, evaluation and sessions, object life cycles x (int,int) (int,long) (long,long) (long long,long long)', SIMASSUME,
      CFG('i32', 'gs unique crystal sarray sort comm ftuple fgs locate2') + CFG('glong', 'sort comm ftuple') +
      CFG('wide', 'gs unique auto crystal sarray sort comm ftuple fgs locate2 locate3 eval2 sess2 sess3 res ffp') + CFG('widell', 'gs sort comm ftuple eval2'))
check('C27', 'bounded histories of operations on objects of three copies of the real library in one program, explored exhaustively',
      REAL + 'three copies, with prefixes gslib_/fgslib_ (underscore), jl_/jlf_ (lower case, long integers) and none (upper case, without nonblocking collectives) -- in a second run two upper-case copies and one without mangling --, are linked statically into every rank; the linker refuses a name two copies share.',
      'every kind of object in each copy beside live objects of the others x variants; every order of two life cycles in two copies x pairs of kinds; every history to depth 4 over two slots in each of two copies', SIMASSUME,
      [dict(name='two', harness='h_two', npmax=5, asan=UAR, build_is_property=True, tolerate=['transpose-flagged-primary'], budget=(200, 2000),
            copies=[('A', 'nbc', 'two_copy', []), ('B', 'jl', 'two_copy', []), ('C', 'bare', 'two_copy', ['-DNO_NBC'])]),
       dict(name='two-names', harness='h_two', npmax=5, asan=UAR, build_is_property=True, tolerate=['transpose-flagged-primary'], budget=(200, 2000), defs=['-DFEW'],
            copies=[('A', 'uc1', 'two_copy', []), ('B', 'uc2', 'two_copy', []), ('C', 'lc', 'two_copy', [])])])
check('C28', 'bounded failure reports enumerated exhaustively on the real library in the simulated message layer',
      REAL + 'every way to report a failure is called on every rank; what was printed is compared with the parts of the report when the process ends.',
      'ways to report x rank x status 1-255; x every message length 0-2600 and around every power of two to 65536; prefix and file name lengths around powers of two to 8192; both exits (process exit, user exit handler)', SIMASSUME,
      [dict(name='fail', harness='h_fail', npmax=6, budget=(100, 600)),
       dict(name='fail-usr', harness='h_fail', variant='usrexit', defs=['-DUSR_EXIT'], npmax=6, budget=(100, 600))])
check('C29', 'bounded operations enumerated exhaustively on the real library in the simulated message layer, which counts what every rank sends',
      REAL + 'the message layer counts the messages and bytes each rank sends to each other and its collective calls; bounds are evaluated for every operation of every case.',
      'layouts (structured to 17 processes, every small one) x methods x types x packings x transpose x blocking; routing patterns to 33 processes; reductions to 40; setups', SIMASSUME,
      [dict(name='cost', harness='h_cost', npmax=40, tolerate=['transpose-flagged-primary'], budget=(200, 2000)),
       dict(name='cost-default', harness='h_cost', variant='default', defs=['-DNO_NBC'], npmax=40, tolerate=['transpose-flagged-primary'], budget=(200, 2000))])
check('C30', 'bounded operations enumerated exhaustively on the real library; user arrays are sparse mappings of up to tens of gigabytes of which only the entries in use exist',
      REAL + 'the arrays handed over are far larger than 4 GB (and, for vectors, than 2^32 elements) but only the pages of the entries in use are ever present; results are compared with the model of the operation (or with those of the same call on small arrays), and every page present at the end that belongs to no entry in use must still be zero.',
      'layouts of four entries at 2^31 and 2^32 bytes and elements x methods x types x operations; field strides; sorts over keys, distances and types; record sorts; transfers; point location', SIMASSUME,
      [dict(name='huge', harness='h_huge', npmax=4, tolerate=['transpose-flagged-primary'], budget=(400, 3000)),
       dict(name='huge-wide', harness='h_huge', variant='wide', npmax=4, tolerate=['transpose-flagged-primary'], budget=(300, 3000), tier='thorough'),
       dict(name='huge-nompi', harness='h_huge', variant='nompi', defs=['-DNO_NBC'], npmax=1, only_np=1, tolerate=['transpose-flagged-primary'], budget=(300, 3000))])
