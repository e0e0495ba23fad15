#!/usr/bin/env python3
"""The properties (texts, anchors) and what each check covers; running this file
rewrites properties.jsonl and MANIFEST.json from it and from checks.py."""
import json, os
from checks import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
G = "src/graphblas/"
BOTH = "the same header in platforms/sequential and platforms/optimized_sequential"


def plat(*names):
    return [G + "platforms/%s/%s" % (p, n) for n in names for p in ("optimized_sequential", "sequential")]


TESTS = "The unit tests compare %s; they fix a handful of shapes and contents, so they cannot rule out a case split (%s) going wrong on another one."
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=None, **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))


prop("C01", "Matrix multiply equals its mathematical definition",
     "C<M,z> = C accum (A op B) over any semiring equals the naive definition: an output position is stored exactly when some inner index is stored in both operands, its value is the semiring sum, in any order, of multiply(a_ik, b_kj) with the operands in that order. This holds with either operand transposed, any mask form, with or without an accumulator, merging or replacing, and leaves the operands and the mask unchanged.",
     ["inputs", "configurations"],
     "all shapes, all sparsity patterns and values of A, B, C and the mask, all 4 transposition combinations, all 5 mask forms, accumulate or not, merge or replace, both backends",
     TESTS % ("mxm on a few fixed 3x3 to 4x4 operands", "empty rows, masks x accumulate x replace x transposes, each a separate kernel"),
     [G + "operations.hpp"] + plat("sparse_mxm.hpp", "sparse_helpers.hpp"),
     [("separate kernels per transposition/mask/accumulator combination", G + "platforms/optimized_sequential/sparse_mxm.hpp"),
      ("dot products per output position then write_with_opt_mask", G + "platforms/sequential/sparse_mxm.hpp")],
     ["grb::mxm output matrix: nvals, hasElement, extractElement, extractTuples"])
prop("C02", "Matrix-vector and vector-matrix multiply equal their definitions",
     "w<m,z> = w accum (A op u) and w<m,z> = w accum (u op A) equal the naive definition over any semiring, with A given directly or transposed: an entry is stored exactly when some inner index is stored in both operands, and the multiply receives its operands in the order they are written. Operands and mask are left unchanged.",
     ["inputs", "configurations"],
     "all shapes, contents of A, u, w and the mask, plain or transposed A, all mask forms, accumulate or not, merge or replace, both backends",
     TESTS % ("mxv/vxm on a few fixed operands", "row-wise dot against column-wise axpy, empty rows, early outs on empty operands"),
     [G + "operations.hpp"] + plat("sparse_mxv.hpp", "sparse_vxm.hpp", "sparse_helpers.hpp"),
     [("dot and axpy formulations chosen by the operand's view", G + "platforms/optimized_sequential/sparse_mxv.hpp, sparse_vxm.hpp")],
     ["grb::mxv, grb::vxm output vector"])
prop("C03", "Element-wise add is the union and multiply the intersection",
     "Element-wise add stores op(a,b) where both operands are stored and the single stored value elsewhere in the union; element-wise multiply stores op(a,b) exactly on the intersection; both for vectors and for matrices given directly or transposed, for any operator, followed by the common accumulate/mask/replace rule. Operands and mask are left unchanged.",
     ["inputs", "configurations"],
     "all shapes and contents of both operands, output and mask, all view combinations, mask forms, accumulate, replace, operators, monoids and semirings as operators, both backends",
     TESTS % ("a few fixed operands", "two-pointer merges with one list ending first, empty rows, transposed views"),
     [G + "operations.hpp"] + plat("sparse_ewise_add.hpp", "sparse_ewise_mult.hpp", "sparse_helpers.hpp"),
     [("two-pointer merge of sorted rows", G + "platforms/*/sparse_helpers.hpp: ewise_or, ewise_and")],
     ["grb::eWiseAdd, grb::eWiseMult outputs"])
prop("C04", "Extract returns exactly the indexed part",
     "Extracting with index lists I (and J) gives an output whose position (p,q) is stored exactly when source position (I[p],J[q]) is, with its value, for any order and repetition of indices, for all-indices, for a vector, a matrix or one column, direct or transposed, followed by the common accumulate/mask/replace rule.",
     ["inputs", "configurations"],
     "all sources, all index sequences including repeated and unsorted ones, all-indices, views, masks, accumulate, replace, both backends",
     TESTS % ("a few index lists", "repeated, unsorted or complete lists, transposed sources"),
     [G + "operations.hpp"] + plat("sparse_extract.hpp"), [("vectorExtract/matrixExtract/column extract", G + "platforms/*/sparse_extract.hpp")],
     ["grb::extract outputs"])
prop("C05", "Assign changes exactly the indexed region",
     "Assigning a vector, matrix, row, column or constant to an indexed region makes position I[p],J[q] equal to the source's position p,q (absent included, unless accumulating), leaves everything outside the region as it was, and then applies mask and replace: to the whole output, except for row and column assign where it covers that row or column. Index lists may be in any order.",
     ["inputs", "configurations"],
     "all outputs, sources, index sequences (every order; repeats for constants), all-indices, masks, accumulate, replace, both backends",
     TESTS % ("a few regions, mostly sorted index lists", "unsorted lists, absent source positions inside the region, the accumulate and mask combinations"),
     [G + "operations.hpp"] + plat("sparse_assign.hpp"), [("stdAssign/vectorExpand/matrixExpand then the write step", G + "platforms/*/sparse_assign.hpp")],
     ["grb::assign outputs"])
prop("C06", "Apply maps every stored value and nothing else",
     "Apply with a unary operator, or with a binary operator bound to a scalar on the left or on the right, yields a result stored exactly where the input is stored, holding op(x), op(s,x) or op(x,s), for vectors and for matrices given directly or transposed, then follows the common accumulate/mask/replace rule.",
     ["inputs", "configurations"],
     "all inputs, views, operators, scalars, masks, accumulate, replace, both backends",
     TESTS % ("a few fixed inputs", "bound side, views, empty rows, mask forms"),
     [G + "operations.hpp"] + plat("sparse_apply.hpp"), [("apply to each stored tuple", G + "platforms/*/sparse_apply.hpp")], ["grb::apply outputs"])
prop("C07", "Reduce folds each stored value exactly once",
     "Reducing a matrix to a vector gives, for each row (column when transposed) with at least one stored value, the monoid fold of exactly the stored values, and no entry otherwise; reducing to a scalar folds every stored value once, gives the identity when there is none, and accumulates into the previous scalar when asked to.",
     ["inputs", "configurations"],
     "all contents, views, monoids, masks, accumulate, replace, both backends",
     TESTS % ("a few fixed inputs", "empty rows, empty containers, single values, transposes"),
     [G + "operations.hpp"] + plat("sparse_reduce.hpp"), [("row folds and scalar folds", G + "platforms/*/sparse_reduce.hpp")], ["grb::reduce outputs"])
prop("C08", "Transpose and Kronecker product equal their definitions",
     "Transposing moves every stored (i,j) to (j,i) with its value and nothing else; the Kronecker product stores op(a_ij,b_pq) at (i*rows(B)+p, j*cols(B)+q) exactly where both are stored; operands may be given transposed and the common accumulate/mask/replace rule follows.",
     ["inputs", "configurations"],
     "all shapes and contents of operands, output and mask, views, mask forms, accumulate, replace, both backends",
     TESTS % ("a few fixed inputs", "non-square shapes, empty rows, double transposition"),
     [G + "operations.hpp"] + plat("sparse_transpose.hpp", "sparse_kronecker.hpp"),
     [("transpose", G + "platforms/*/sparse_transpose.hpp"), ("kronecker", G + "platforms/*/sparse_kronecker.hpp")], ["grb::transpose, grb::kronecker outputs"])
prop("C09", "Every operation writes its result by one mask/accumulate/replace rule",
     "Whatever the operation and whatever the value type of the mask, an output position is written exactly when the mask lets it through (stored and true-valued, merely stored for a structural mask, or the negation of either for a complement), the previous value outside it is kept when merging and deleted when replacing, and an accumulator combines old value first, result second and keeps whichever is alone. Without an accumulator a let-through position that has no result is deleted.",
     ["inputs", "configurations"],
     "every operation x all mask forms x mask value types (bool, int, double, unsigned 64 bit; values such as 0.5, 256, 2^32 that are true but convert to 0 elsewhere) x all outputs, results and masks",
     "The tests use a few bool or unsigned masks per operation; the rule has about twenty separately written implementations.",
     [G + "operations.hpp", G + "ComplementView.hpp", G + "StructureView.hpp", G + "StructuralComplementView.hpp"] + plat("sparse_helpers.hpp", "sparse_mxm.hpp"),
     [("write_with_opt_mask(_1D), apply_with_mask, get_structure iterators", G + "platforms/*/sparse_helpers.hpp")], ["outputs of all operations"])
prop("C10", "A matrix behaves as a map from positions to values",
     "After any sequence of construction, build, setElement, removeElement, clear, resize, assignment, copy and swap-like moves, a matrix's dimensions, count of stored values, element queries, extracted tuples, equality and row/column access agree with a plain map from (row, column) to value.",
     ["histories", "inputs"],
     "all operation sequences on matrices of every small shape, all build inputs including duplicates and any order",
     "The tests run a few straight-line sequences; counters and sorted rows that drift need particular sequences (overwrite, shrink, grow back, rebuild).",
     [G + "Matrix.hpp"] + plat("LilSparseMatrix.hpp", "backend_include.hpp"),
     [("row lists kept sorted, m_nvals kept in step", G + "platforms/*/LilSparseMatrix.hpp")], ["grb::Matrix public members, operator=="],
     [("m_nvals", "cached number of stored values", G + "platforms/*/LilSparseMatrix.hpp"), ("m_data", "per-row sorted (column,value) lists", G + "platforms/*/LilSparseMatrix.hpp")])
prop("C11", "A vector behaves as a map from indices to values",
     "After any sequence of construction, build, setElement, removeElement, clear, resize, assignment and copy, a vector's size, count of stored values, element queries, extracted tuples and equality agree with a plain map from index to value.",
     ["histories", "inputs"],
     "all operation sequences on vectors of every small size, all build inputs including duplicates and any order",
     "The tests run a few straight-line sequences; presence flags, stale values and the cached count drift only on particular ones.",
     [G + "Vector.hpp"] + plat("BitmapSparseVector.hpp"),
     [("presence bitmap plus dense values, m_nvals kept in step", G + "platforms/*/BitmapSparseVector.hpp")], ["grb::Vector public members, operator=="],
     [("m_bitmap", "which positions are stored", G + "platforms/*/BitmapSparseVector.hpp"), ("m_nvals", "cached count", G + "platforms/*/BitmapSparseVector.hpp")])
prop("C12", "Results do not depend on the output sharing an object with an input",
     "Calling any operation with the same object as output and as one or both inputs, as output and mask, or as input and mask gives the result that separate copies would give.",
     ["inputs", "configurations"],
     "every operation x every pattern of shared arguments x views x mask forms x accumulate x replace x contents, both backends",
     "Hardly any test aliases its arguments; kernels that write rows while reading them only fail for particular contents.",
     [G + "operations.hpp"] + plat("sparse_mxm.hpp", "sparse_assign.hpp", "sparse_helpers.hpp"),
     [("result built aside before being written; special in-place paths", G + "platforms/optimized_sequential/sparse_mxm.hpp")], ["outputs of all operations"])
prop("C13", "An invalid call throws the documented exception and changes nothing",
     "A call with mismatched dimensions, an index or position out of range, or an invalid size throws the matching exception before it has any effect: output, inputs and masks are unchanged and no memory outside them is touched; a valid call never throws.",
     ["inputs", "configurations"],
     "every operation and container member x all small combinations of dimensions of every argument x index lists with one bad entry in each place, both backends",
     "Each test checks one or two mismatches per operation and never the state afterwards.",
     [G + "operations.hpp", G + "detail/checks.hpp", G + "detail/param_unpack.h", G + "exceptions.hpp"] + plat("sparse_assign.hpp", "sparse_extract.hpp", "BitmapSparseVector.hpp", "LilSparseMatrix.hpp"),
     [("check_* helpers at the head of each operation", G + "detail/checks.hpp, operations.hpp")], ["exception type, state of all arguments, AddressSanitizer"])
prop("C14", "Mixed value types convert only where the operation says",
     "When output, inputs, mask and operators have different value types, each operator sees its own argument types converted from the stored ones, intermediate results keep the operator's result type, and the conversion to the output's type happens once when the result is written.",
     ["inputs", "configurations"],
     "every operation x combinations of int, double, bool, 8-bit and 64-bit types x values that expose an early or missing conversion x masks, accumulate, replace, both backends",
     "The tests use one type throughout nearly everywhere.",
     [G + "operations.hpp", G + "types.hpp"] + plat("sparse_helpers.hpp", "sparse_mxm.hpp", "sparse_ewise_add.hpp", "sparse_ewise_mult.hpp"),
     [("result types deduced from the operator; static_cast on write", G + "platforms/*/sparse_helpers.hpp")], ["outputs of all operations"])
prop("C15", "Both backends give identical results",
     "For the same program the two backends produce the same containers, the same scalars and the same exceptions, including on the inputs where the specification leaves the outcome open but the library is documented to be lenient.",
     ["inputs", "programs", "configurations"],
     "all operations and algorithms over all small inputs",
     "The build runs the tests for one backend at a time against hard-coded results; nothing compares the two.",
     [G + "platforms/optimized_sequential", G + "platforms/sequential"], [("two copies of each operation", G + "platforms/*")], ["outputs of all operations and algorithms"])
prop("C16", "Predefined operators, monoids and semirings compute what they are named for",
     "Every predefined unary and binary operator computes its documented function, every monoid's identity leaves any value unchanged and its operation is associative and commutative, and every semiring pairs the named addition and multiplication with a zero that is the addition's identity, for every supported value type.",
     ["inputs", "configurations"],
     "all operators/monoids/semirings x value types x all values of small types and boundary values of large ones",
     "The tests evaluate each on one or two values and rarely look at identities.",
     [G + "algebra.hpp"], [("GEN_GRAPHBLAS_MONOID / GEN_GRAPHBLAS_SEMIRING and operator structs", G + "algebra.hpp")], ["grb operators, monoids, semirings"])
prop("C17", "Utilities and views keep the structure they promise",
     "Diagonal and identity builders, splitting into lower and upper triangles, row and column normalisation, and the transpose, complement and structure views of any matrix or vector show exactly the documented elements of what they were made from, for any shape.",
     ["inputs"],
     "all small matrices of every shape, all diagonals",
     "The tests use one square example each.",
     [G + "matrix_utils.hpp", G + "TransposeView.hpp", G + "ComplementView.hpp", G + "StructureView.hpp", G + "StructuralComplementView.hpp"],
     [("matrix utilities", G + "matrix_utils.hpp"), ("views", G + "*View.hpp")], ["utility results and view accessors"])
prop("C18", "Programs of several operations end where the definitions say",
     "Any sequence of operations over a shared pool of matrices and vectors leaves every one of them in the state that applying the definitions one after another gives; no operation damages an object in a way that only a later one reveals.",
     ["programs", "histories"],
     "all operation sequences up to a bounded length over a pool of three matrices and two vectors with aliasing allowed",
     "The tests run one operation on fresh objects; damage that needs a second operation to show cannot appear.",
     [G + "operations.hpp"] + plat("sparse_helpers.hpp", "LilSparseMatrix.hpp", "BitmapSparseVector.hpp"),
     [("cached counts and row lists shared by all operations", G + "platforms/*/LilSparseMatrix.hpp, BitmapSparseVector.hpp")], ["all objects after every operation"])
A = "src/algorithms/"
prop("C19", "Breadth-first search finds exactly the shortest hop levels and valid parents",
     "From any root or set of roots every reachable vertex gets its hop distance as level and a parent one level closer (roots themselves), and unreachable vertices get no entry, in every variant: single root, several roots at once, batched, masked, and the specification's appendix versions.",
     ["inputs"],
     "all small directed graphs with self loops, all roots and root sets, all edge value types",
     "The tests run two or three fixed graphs.",
     [A + "bfs.hpp", A + "appendix_algorithms.hpp"], [("frontier expansion with the visited set as complemented mask", A + "bfs.hpp")], ["levels and parents"])
prop("C20", "Shortest path algorithms return the exact distances",
     "Every single-source, batched, filtered, delta-stepping and all-pairs shortest-path routine, and the distance and degree metrics built on them, returns the exact minimum path weights, with no entry for unreachable vertices, on any graph with weights in its domain.",
     ["inputs"],
     "all small directed graphs with all assignments of small weights, all sources, all stepping widths",
     "The tests run one or two fixed graphs.",
     [A + "sssp.hpp", A + "apsp.hpp", A + "metrics.hpp"], [("relaxation loops over min-plus", A + "sssp.hpp")], ["distance vectors and matrices, metrics"])
prop("C21", "Triangle counts and k-trusses are exact",
     "Every triangle counting variant returns the number of triangles of the undirected simple graph, and the k-truss routines return exactly the maximal subgraph in which every edge lies in at least k-2 triangles.",
     ["inputs"],
     "all small undirected graphs, all k, all block sizes",
     "The tests run two fixed graphs.",
     [A + "triangle_count.hpp", A + "k_truss.hpp", A + "appendix_algorithms.hpp"], [("masked products of triangles", A + "triangle_count.hpp")], ["counts, truss edges"])
prop("C22", "Maximal independent set is independent and maximal for any random seed",
     "For any undirected graph and any outcome of the random choices the result contains no two adjacent vertices, cannot be extended by any vertex, and the algorithm terminates.",
     ["inputs", "configurations"],
     "all small undirected graphs, all seeds of a range",
     "The tests run one graph with one or two seeds.",
     [A + "mis.hpp", A + "appendix_algorithms.hpp"], [("Luby rounds", A + "mis.hpp")], ["independent set vector"])
prop("C23", "Minimum spanning tree has minimum weight and spans the graph",
     "For any connected undirected weighted graph the returned parent structure is a spanning tree of the graph's edges and the returned weight is the minimum over all spanning trees.",
     ["inputs"], "all small connected graphs with all assignments of small weights, ties included",
     "The tests run one graph.", [A + "mst.hpp"], [("Prim's algorithm", A + "mst.hpp")], ["weight and parents"])
prop("C24", "Maximum flow equals minimum cut",
     "For any capacitated directed graph and any two distinct terminals each flow routine returns the value of the minimum cut.",
     ["inputs"], "all small directed graphs with all assignments of small capacities, all terminal pairs",
     "The tests run a few fixed networks.", [A + "maxflow.hpp"], [("augmenting paths; push-relabel", A + "maxflow.hpp")], ["flow value"])
prop("C25", "Betweenness centrality equals its definition",
     "For any graph without self loops and any set of sources every betweenness routine returns the sum over those sources of pair dependencies (fractions of shortest paths through each vertex).",
     ["inputs"], "all small directed graphs, all source sets and batch sizes",
     "The tests run a few fixed graphs.", [A + "bc.hpp", A + "appendix_algorithms.hpp"], [("batched Brandes in linear algebra", A + "bc.hpp")], ["centrality vectors"])
prop("C26", "PageRank satisfies its fixed-point equation",
     "For any graph the returned ranks equal the damped iteration r = d r P + (1-d)/n, iterated from the uniform vector to the given tolerance or iteration limit.",
     ["inputs"], "all small directed graphs, several damping factors and limits",
     "The tests run two fixed graphs.", [A + "page_rank.hpp"], [("power iteration", A + "page_rank.hpp")], ["rank vector"])
prop("C27", "Clustering routines compute the partition their definition gives",
     "Peer-pressure, Markov and Louvain clustering follow their published update rule on any graph, assign each vertex to one cluster, and terminate.",
     ["inputs"], "all small graphs, with and without weights and iteration limits",
     "The tests run two fixed graphs.", [A + "cluster.hpp", A + "cluster_louvain.hpp"], [("iterated products and column maxima", A + "cluster.hpp")], ["cluster matrices and assignments"])
prop("C28", "Every exception tells its cause",
     "Any exception thrown by the library can be caught as a standard exception and its what() text contains the message it was created with, for as long as the exception lives.",
     ["inputs", "configurations"], "all exception classes x all failing calls x copies and rethrows",
     "The tests check only the exception's type.", [G + "exceptions.hpp"], [("what() of each class", G + "exceptions.hpp")], ["std::exception::what()"])

PENDING = "check not built yet (work in progress)"
TECH = "stateless bounded-exhaustive model checking of the real code against a reference model"
TECHS = {
    "C10": "explicit-state BFS over operation histories on the real container against a map model, plus exhaustive enumeration",
    "C11": "explicit-state BFS over operation histories on the real container against a map model, plus exhaustive enumeration",
    "C18": "bounded-exhaustive exploration of operation sequences on the real code against a reference model",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        c = CHECKS.get(p["id"])
        if not c:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], PENDING)))
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                           thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                           technique=TECHS.get(p["id"], TECH), level="model_checking",
                           level_note="Exhaustive within: %s. Assumes: %s" % (c["bounds"], "; ".join(c.get("assumptions", [])) or "nothing beyond the compiler")))
    m = dict(version=1, setup_cmd="python3 run.py --build-all", checks=checks, not_applicable=na,
             notes="All checks drive the real headers of /repo/src, compiled per backend, through every choice of a bounded choice tree; see DESIGN.md. No hooks in /repo are needed.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


NA = {}
if __name__ == "__main__":
    main()
