"""What each property's check compiles and runs (see run.py)."""
TT = [["TA=%d" % a, "TB=%d" % b] for a in (0, 1) for b in (0, 1)]
REFM = "the dense reference model of mc/ref.hpp and mc/ops.hpp states the definition correctly"
SMALL = "small scope: a defect shows on some input within the bounds"
CTRL = "5 mask forms (none, value, complement, structural, structural complement) x accumulate or not (non-commutative accumulator) x merge or replace, both backends"
VALN = "; the same small contents over 4-7 domains of awkward values (semiring identities and annihilators, stored zeros/falses, type extremes, infinities, NaN, -0.0 next to 0.0)"
BIGN = VALN + "; structured contents (alternating, irregular, full, last only, empty...) for a ladder of lengths up to 1100; rows of 10, 17, 33 and 70 places with every single place, gap, prefix, suffix and window (and pair, to 17) in one operand, the output or the mask"
HUGEN = "; hyper-sparse matrices of 258 to 2^62 columns (inner and outer dimension) with entries where narrower indices collide"
BIGG = "; every graph of 7 and 8 (thorough 9) vertices once up to isomorphism, with numberings, orientations and weights that vary; 24 families of structured graphs (paths, cycles, stars, trees, diamonds, grids, cliques, bridges, bipartite, wheels, bands, tubes, hypercubes, irregular, many parts, empty...) of 9 to 66 (thorough 79) vertices in three numberings, both orientations, several weightings, and of 260 vertices"
CHECKS = {
    "C01": dict(units=[dict(src="C01_mxm.cpp", defs=d) for d in TT] + [dict(src="BIG_ops.cpp", defs=["WHICH=1"]), dict(src="POS_ops.cpp", defs=["WHICH=1"])] + [dict(src="HUGE_ops.cpp", opt="-O1", shards=2, defs=["WHICH=1", "TA=%d" % a, "TB=%d" % b]) for a, b in ((0, 0), (0, 1), (1, 0))] + [ dict(src="VAL_ops.cpp", opt="-O1", shards=2, defs=["WHICH=1"])],
                bounds="all 4 transposition pairs x " + CTRL + "; every sparsity pattern of A, B, C and mask (absent/true/stored false) for all shapes with dimensions up to 2, 12 longer shapes (inner or outer dimension up to 4; C over 3 patterns), values 1/0/-1 for cancellation; operands carry distinct primes and a non-commutative multiply" + BIGN + HUGEN,
                assumptions=[REFM, SMALL]),
    "C02": dict(units=[dict(src="C02_mxv.cpp")] + [dict(src="BIG_ops.cpp", defs=["WHICH=2"]), dict(src="POS_ops.cpp", defs=["WHICH=2"]), dict(src="VAL_ops.cpp", opt="-O1", shards=2, defs=["WHICH=2"])],
                bounds="mxv and vxm x plain/transposed x " + CTRL + "; every content of A, u, w, mask for shapes up to 2x2, and 8 shapes up to 3x3/2x4; values 1/0/-1; selecting and min-plus semirings" + BIGN,
                assumptions=[REFM, SMALL]),
    "C03": dict(units=[dict(src="C03_ewise.cpp", defs=["OPU=%d" % u, "WHAT=0"]) for u in (1, 0)] + [dict(src="C03_ewise.cpp", defs=["OPU=%d" % u, "WHAT=1"] + d) for u in (1, 0) for d in TT] + [dict(src="BIG_ops.cpp", defs=["WHICH=3"]), dict(src="POS_ops.cpp", defs=["WHICH=3"]), dict(src="HUGE_ops.cpp", opt="-O1", shards=2, defs=["WHICH=3"]), dict(src="VAL_ops.cpp", opt="-O1", shards=2, defs=["WHICH=3"])],
                bounds="vectors up to length 5, matrices up to 2x2, 1x3, 2x3, 3x2, all view pairs x " + CTRL + "; 7 operators including monoids, bool results and stored zeros" + BIGN + HUGEN,
                assumptions=[REFM, SMALL]),
    "C04": dict(units=[dict(src="C04_extract.cpp", defs=["PART=%d" % p]) for p in (0, 1)] + [dict(src="BIG_ops.cpp", defs=["WHICH=4"]), dict(src="POS_ops.cpp", defs=["WHICH=4"]), dict(src="HUGE_ops.cpp", opt="-O1", shards=2, defs=["WHICH=4"]), dict(src="VAL_ops.cpp", opt="-O1", shards=2, defs=["WHICH=4"])],
                bounds="vector, matrix and column extract; every index sequence (repeats, any order, all-indices) up to length 4 over sources up to 3x3 x " + CTRL + BIGN + HUGEN,
                assumptions=[REFM, SMALL, "all-indices with a source of another size is outside the domain"]),
    "C05": dict(units=[dict(src="C05_assign.cpp", defs=["PART=%d" % p]) for p in (0, 1, 2)] + [dict(src="BIG_ops.cpp", defs=["WHICH=5"]), dict(src="POS_ops.cpp", defs=["WHICH=5"]), dict(src="HUGE_ops.cpp", opt="-O1", shards=2, defs=["WHICH=5"]), dict(src="VAL_ops.cpp", opt="-O1", shards=2, defs=["WHICH=5"])],
                bounds="vector, matrix, row, column, constant assign; every injective index sequence (any sequence for constants) into outputs up to 4, 3x3 x " + CTRL + BIGN + HUGEN,
                assumptions=[REFM, SMALL, "repeated indices with a non-constant source are outside the domain"]),
    "C06": dict(units=[dict(src="C06_apply.cpp")] + [dict(src="BIG_ops.cpp", defs=["WHICH=6"]), dict(src="POS_ops.cpp", defs=["WHICH=6"]), dict(src="HUGE_ops.cpp", opt="-O1", shards=2, defs=["WHICH=6"]), dict(src="VAL_ops.cpp", opt="-O1", shards=2, defs=["WHICH=6"])],
                bounds="unary, left-bound, right-bound; vectors up to 4, matrices up to 2x3, plain/transposed x " + CTRL + BIGN + HUGEN,
                assumptions=[REFM, SMALL]),
    "C07": dict(units=[dict(src="C07_reduce.cpp")] + [dict(src="BIG_ops.cpp", defs=["WHICH=7"]), dict(src="POS_ops.cpp", defs=["WHICH=7"]), dict(src="HUGE_ops.cpp", opt="-O1", shards=2, defs=["WHICH=7"]), dict(src="VAL_ops.cpp", opt="-O1", shards=2, defs=["WHICH=7"])],
                bounds="row reductions of matrices up to 3x3/1x5, scalar reductions of vectors up to 5 and matrices up to 2x3 with values incl. 0 and negatives, 4 monoids x " + CTRL + BIGN + HUGEN,
                assumptions=[REFM, SMALL]),
    "C08": dict(units=[dict(src="C08_transkron.cpp", defs=["PART=%d" % p]) for p in (0, 1)] + [dict(src="BIG_ops.cpp", defs=["WHICH=8"]), dict(src="POS_ops.cpp", defs=["WHICH=8"]), dict(src="HUGE_ops.cpp", opt="-O1", shards=2, defs=["WHICH=8"]), dict(src="VAL_ops.cpp", opt="-O1", shards=2, defs=["WHICH=8"])],
                bounds="transpose up to 3x3/1x5; Kronecker of operands up to 2x2, 1x3, 3x2, all views x " + CTRL + BIGN + HUGEN,
                assumptions=[REFM, SMALL]),
    "C09": dict(units=[dict(src="C09_masks.cpp", opt="-O1", defs=["PART=%d" % p, "MASKT=" + t, "MTK=%d" % k]) for k, t in enumerate(["double", "uint64_t", "int"]) for p in range(5)],
                bounds="every operation x mask value types double, uint64, int with values true-but-truncating x " + CTRL + "; contents of outputs and masks of 2x2/length 3",
                assumptions=[REFM, SMALL]),
    "C10": dict(units=[dict(src="C10_matrix.cpp", defs=["VT=int", "MAXD=3", "NVALS=1"]),
                       dict(src="C10_matrix.cpp", defs=["VT=int", "MAXD=2", "NVALS=3"]),
                       dict(src="C10_matrix.cpp", defs=["VT=double", "MAXD=2", "NVALS=1"], asan=1),
                       dict(src="C10_matrix.cpp", defs=["VT=bool", "MAXD=2", "NVALS=2"]),
                       dict(src="C10_matrix.cpp", defs=["VT=int", "MAXD=3", "NVALS=2"], tier="thorough"),
                       dict(src="HUGE_ops.cpp", opt="-O1", shards=2, defs=["WHICH=10"]),
                       dict(src="BIG_store.cpp", defs=["WHICH=10"])],
                bounds="BFS to a fixpoint over all operation histories of a matrix with dimensions up to 3 (one value) or 2 (three values, a stored zero among them; booleans), every build input up to 3-4 tuples with duplicates; every history of 2-3 of 16-18 operations and every build of 1 to 1025 places with duplicates on structured contents of sizes 9 to 1100; histories of 2 (thorough 3) calls of 9 kinds on two rows of 258 to 2^62 columns",
                assumptions=["the map model in the harness is right", SMALL]),
    "C11": dict(units=[dict(src="C11_vector.cpp", defs=["VT=int", "MAXN=5", "NVALS=2"]),
                       dict(src="C11_vector.cpp", defs=["VT=double", "MAXN=3", "NVALS=2"], asan=1),
                       dict(src="C11_vector.cpp", defs=["VT=bool", "MAXN=5", "NVALS=2"]),
                       dict(src="C11_vector.cpp", defs=["VT=int", "MAXN=7", "NVALS=3"], tier="thorough"),
                       dict(src="BIG_store.cpp", defs=["WHICH=11"])],
                bounds="BFS to a fixpoint over all operation histories of a vector of size up to 5 with two values (one a stored zero; also booleans), every build input up to 4 tuples with duplicates; every history of 2-3 of 16-18 operations and every build of 1 to 1025 places with duplicates on structured contents of sizes 9 to 1100",
                assumptions=["the map model in the harness is right", SMALL]),
    "C12": dict(units=[dict(src="C12_alias.cpp", defs=["PART=0", "FULLMASKS=1"] + d) for d in TT] + [dict(src="C12_alias.cpp", defs=["PART=%d" % p, "FULLMASKS=1"]) for p in range(1, 5)] + [dict(src="C12_alias.cpp", opt="-O1", defs=["PART=%d" % p, "ALIAS_BIG"]) for p in range(5)],
                bounds="every operation x every pattern of shared arguments (output=input(s), output=mask, input=mask, input=input) on 2x2 and 3x3 matrices / vectors up to 3 x " + CTRL + "; and on structured contents of sizes 9 to 65 (vectors to 1100)",
                assumptions=[REFM, SMALL]),
    "C13": dict(units=[dict(src="C13_errors.cpp", defs=["PART=%d" % p], asan=1) for p in range(5)],
                bounds="every operation x all argument dimensions in a small range x index lists with bad entries, under AddressSanitizer and UBSan, both backends",
                assumptions=["the expected exception per violated rule as documented in the headers", SMALL]),
    "C14": dict(units=[dict(src="C14_types.cpp", opt="-O1", defs=["PART=%d" % p, "CFG=%d" % k]) for k in range(5) for p in range(4)],
                bounds="every operation x 5 combinations of value types of output, inputs, mask, operators with fractional/large values x " + CTRL,
                assumptions=[REFM, SMALL]),
    "C16": dict(units=[dict(src="C16_algebra.cpp", plats=["seq"])],
                bounds="every predefined operator, monoid and semiring x bool, int8..int64, uint8..uint64, float, double over all pairs (triples for associativity) of a boundary value set",
                assumptions=["overflowing signed arithmetic, NaN and bitwise operators on bool are outside the domain", "the platform-independent header is compiled once"]),
    "C18": dict(units=[dict(src="C18_histories.cpp", defs=["DEPTH=4"]), dict(src="C18_histories.cpp", defs=["WIDE"])],
                bounds="all sequences of up to 4 (thorough 5) of 47 operation instances over 3 matrices and 2 vectors with aliasing, from 3 starting states; all sequences of 3 (thorough 4) of 41 instances over 4x4 and 2x4 objects from 256 (16) starting states that run through every pattern of a row of four",
                assumptions=[REFM, SMALL]),
    "C19": dict(units=[dict(src="C19_bfs.cpp"), dict(src="C19_bfs.cpp", defs=["GRAPH_BIG"]), dict(src="C19_bfs.cpp", defs=["GRAPH_BIG", "GRAPH_ISO"]), dict(src="C19_bfs.cpp", defs=["GRAPH_BIG", "GRAPH_HUGE"])],
                bounds="all directed graphs with self loops up to 3 vertices and all loop-free ones of 4, all undirected of 5 and 6, all chains of 6 plus one edge; every source, root set, pairs of root sets; edge types int, bool, double; every BFS variant and appendix B1-B3; outputs empty or (where documented as overwritten) not" + BIGG,
                assumptions=["edge values are true-valued as documented", "level outputs start empty", SMALL]),
    "C20": dict(units=[dict(src="C20_sssp.cpp"), dict(src="C20_sssp.cpp", defs=["GRAPH_BIG"]), dict(src="C20_sssp.cpp", defs=["GRAPH_BIG", "GRAPH_ISO"]), dict(src="C20_sssp.cpp", defs=["GRAPH_BIG", "GRAPH_HUGE"])],
                bounds="all directed graphs up to 3 vertices with every assignment of three weights (positive, non-negative, and with negative ones), all of 4 vertices with two weights, all Hamiltonian paths of 5 (thorough 6) vertices plus one shortcut; every source, 4-7 stepping widths; int, unsigned, double" + BIGG,
                assumptions=["delta stepping and the metrics are for non-negative and positive weights respectively", "closeness is checked as the documented sum of distances", SMALL]),
    "C21": dict(units=[dict(src="C21_triangles.cpp"), dict(src="C21_triangles.cpp", defs=["GRAPH_BIG"]), dict(src="C21_triangles.cpp", defs=["GRAPH_BIG", "GRAPH_ISO"]), dict(src="C21_triangles.cpp", defs=["GRAPH_BIG", "GRAPH_HUGE"])],
                bounds="all undirected simple graphs up to 6 vertices (thorough: 7), k from 2 to 6, both edge orders of the incidence matrix; 7 counting variants, 2 truss variants; int, unsigned, uint64, double" + BIGG,
                assumptions=["edges have value 1 as documented", SMALL]),
    "C22": dict(units=[dict(src="C22_mis.cpp", defs=["RNG=1"]), dict(src="C22_mis.cpp", defs=["RNG=0"])] + [dict(src="C22_mis.cpp", defs=["RNG=%d" % k, "GRAPH_BIG"] + d) for k in (1, 0) for d in ([], ["GRAPH_ISO"], ["GRAPH_HUGE"])],
                bounds="all undirected graphs up to 6 vertices; every outcome of the first 8/6/3 random draws on 4/5/6 vertices over {0, 0.5, 0.999} (ties included; thorough 10/9/7), and real generator seeds 0..7 (thorough 0..63); both variants; int, bool, double" + BIGG,
                assumptions=["edges have value 1 and there are no self loops, as documented", "draws beyond the horizon follow a fixed tie-free sequence", SMALL]),
    "C23": dict(units=[dict(src="C23_mst.cpp"), dict(src="C23_mst.cpp", defs=["GRAPH_BIG"]), dict(src="C23_mst.cpp", defs=["GRAPH_BIG", "GRAPH_ISO"]), dict(src="C23_mst.cpp", defs=["GRAPH_BIG", "GRAPH_HUGE"])],
                bounds="all connected undirected graphs up to 4 vertices with every assignment of three weights (positive, with zero, with negative; ties), of 5 vertices with two weights, 6-vertex chains in every order plus two edges, self loops; int and double" + BIGG,
                assumptions=[SMALL]),
    "C24": dict(units=[dict(src="C24_maxflow.cpp"), dict(src="C24_maxflow.cpp", defs=["GRAPH_BIG"]), dict(src="C24_maxflow.cpp", defs=["GRAPH_BIG", "GRAPH_ISO"]), dict(src="C24_maxflow.cpp", defs=["GRAPH_BIG", "GRAPH_HUGE"])],
                bounds="all directed networks of 2 and 3 vertices with every assignment of three capacities and all terminal pairs, all of 4 vertices with two capacities (several terminal pairs), the 5-vertex bridge network with every capacity assignment plus any one edge in both numberings, and alternating bipartite networks up to 18 vertices that need more augmentations than edges; int and double" + BIGG,
                assumptions=["source and sink differ, capacities are positive", SMALL]),
    "C25": dict(units=[dict(src="C25_bc.cpp"), dict(src="C25_bc.cpp", defs=["GRAPH_BIG"]), dict(src="C25_bc.cpp", defs=["GRAPH_BIG", "GRAPH_ISO"]), dict(src="C25_bc.cpp", defs=["GRAPH_BIG", "GRAPH_HUGE"])],
                bounds="all loop-free directed graphs up to 4 vertices, all undirected of 5 and 6 (6: up to 8 edges in the quick tier), layered graphs up to 7 vertices, 8-vertex chains plus one edge; every set of sources (3 vertices: every order); 9 betweenness routines; double, float, uint32, int" + BIGG,
                assumptions=["edges have value 1 and there are no self loops, as documented", "edge betweenness is the number of shortest paths through an edge, as the tests fix it", "results are compared to 1e-4 relative", SMALL]),
    "C26": dict(units=[dict(src="C26_pagerank.cpp"), dict(src="C26_pagerank.cpp", defs=["GRAPH_BIG"]), dict(src="C26_pagerank.cpp", defs=["GRAPH_BIG", "GRAPH_ISO"]), dict(src="C26_pagerank.cpp", defs=["GRAPH_BIG", "GRAPH_HUGE"])],
                bounds="all directed graphs with self loops up to 3 vertices, all loop-free ones of 4 (thorough: with loops), all undirected and all acyclic ones of 5, undirected of 6, 8-vertex chains plus two edges; 4 damping factors, 9 threshold/iteration-limit pairs, pre-filled outputs, graph types double, float, int, uint8, bool" + BIGG,
                assumptions=["edges have value 1 as documented", "vertices without outgoing edges pass nothing on, and the threshold applies to the mean squared change, as in the code's comments", "compared to 1e-11 (float 1e-5)", SMALL]),
    "C27": dict(units=[dict(src="C27_cluster.cpp", defs=["WHAT=0"]), dict(src="C27_cluster.cpp", defs=["WHAT=1"])] + [dict(src="C27_cluster.cpp", defs=["WHAT=%d" % k, "GRAPH_BIG"] + d) for k in (0, 1) for d in ([], ["GRAPH_ISO"], ["GRAPH_HUGE"]) if not (k and d == ["GRAPH_HUGE"])],
                bounds="peer pressure (both variants, every initial pattern on 3 vertices, several limits) and Markov clustering (e, r in 1..3, thresholds, limits) on all directed graphs with self loops up to 3 vertices, of 4, all undirected of 5 and 6, weights on 2-3; Louvain (both variants) on all undirected graphs up to 6 vertices, with every outcome of the first tie-breaking draws and every tie-breaking in the model; weights on 3-4" + BIGG,
                assumptions=["edge weights are positive; Louvain graphs are undirected with at least one edge", "peer-pressure ties are broken towards the highest cluster, as its comments say; graphs whose ties depend on rounding order are skipped", "running out of iterations ends Louvain with the iteration count, as the code does", SMALL]),
    "C28": dict(units=[dict(src="C28_exceptions.cpp", defs=["PART=%d" % p], asan=1) for p in (0, 1, 2, 3, 4, 9)],
                bounds="all 7 exception classes x messages of 14 lengths around the small-string boundary x copies, moves, assignments, rethrows, exception_ptr; every refused call of every operation (all shapes and index lists of C13) and of the container accessors, under AddressSanitizer",
                assumptions=["a comparison printed in a text (a != b) is meant to be true and about this call's own dimensions", SMALL]),
    "C17": dict(units=[dict(src="C17_views.cpp")],
                bounds="diag of every vector up to length 6, identities up to 9, split and normalisation of every matrix of 15 shapes up to 2x4/4x2/3x3/1x5, single to triple transposition of views in five kinds of use, all mask views over bool/int/uint64/double with true values that convert to zero elsewhere, views taken before a later change of their source, all ranges within 0..8; both backends",
                assumptions=[REFM, SMALL, "rows (columns) whose stored values sum to zero have no normalisation and are skipped"]),
    "C15": dict(units=[dict(src="C15_equiv.cpp", side="C15_side.cpp", plats=["both"], defs=["PART=%d" % p, "CFG=%d" % g]) for g in (0, 1) for p in (0, 1, 2, 3)]
                + [dict(src="C15_equiv.cpp", side="C15_side.cpp", plats=["both"], defs=["PART=%d" % p, "CFG=0"]) for p in (4, 5, 6, 7)],
                bounds="both backends loaded side by side and driven through the same choices: every operation with uniform and with mixed element types over small contents and every mask form/accumulate/replace/view, the same with one dimension or one index wrong or repeated, all container histories of length 4, all programs of two operations over an aliased pool, all algorithms over all digraphs on 3 and 4 vertices and all undirected graphs on 4 and 5",
                assumptions=["rounded results may differ by 1e-9 relative", "clustering with rounding ties is left to C27", SMALL]),
}
