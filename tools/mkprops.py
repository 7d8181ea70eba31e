#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
SEQ="src/graphblas/platforms/sequential/"
OPT="src/graphblas/platforms/optimized_sequential/"
def both(*fs): return [d+f for f in fs for d in (SEQ,OPT)]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

OPS="src/graphblas/operations.hpp"
p("C01","Matrices behave as partial maps under every call history",
  "A matrix always behaves as a partial map from in-range (row, column) positions to values: after any history of construction, build, set, remove, clear, resize, copy and assignment, the number of stored values, presence tests, element reads, extracted tuples, equality and dimensions all describe that same map. Duplicate tuples given to build on an empty matrix are combined, in order, with the given operator; resizing keeps exactly the entries still in range; a stored zero is a stored value. Copies are independent of their origin.",
  ["histories","inputs"],"for all sequences of matrix method calls, shapes, element types and values",
  "Tests check a few literal matrices after one or two calls; the histories (remove after resize after build, ...) and the agreement of all observers after each are unbounded.",
  ["src/graphblas/Matrix.hpp"]+both("LilSparseMatrix.hpp","Matrix.hpp"),
  [("nvals bookkeeping beside row storage",SEQ+"LilSparseMatrix.hpp: setElement/removeElement/resize/build/recomputeNvals"),("public facade","src/graphblas/Matrix.hpp")],
  ["Matrix::nvals/hasElement/extractElement/extractTuples/operator=="],
  [("m_data,m_nvals","sorted rows of (column,value) and the cached count",SEQ+"LilSparseMatrix.hpp")])
p("C02","Vectors behave as partial maps under every call history",
  "A vector always behaves as a partial map from in-range indices to values: after any history of construction (empty, filled, dense), build, set, remove, clear, resize, copy and assignment, the number of stored values, presence tests, element reads, extracted tuples, equality and dimensions all describe that same map. Duplicate indices given to build are combined, in order, with the given operator and counted once; build replaces the previous contents; resizing keeps exactly the entries still in range. Copies are independent of their origin.",
  ["histories","inputs"],"for all sequences of vector method calls, sizes, element types and values",
  "Tests sample a handful of literal vectors; the agreement of count, bitmap and values has to survive every interleaving of mutators.",
  ["src/graphblas/Vector.hpp"]+both("BitmapSparseVector.hpp","Vector.hpp"),
  [("bitmap, value array and count kept in step",SEQ+"BitmapSparseVector.hpp: build/setElement/removeElement/resize/setContents")],
  ["Vector::nvals/hasElement/extractElement/extractTuples/operator=="],
  [("m_bitmap,m_vals,m_nvals","presence flags, values and cached count",SEQ+"BitmapSparseVector.hpp")])
p("C03","One write rule: mask, accumulator and MERGE/REPLACE, for every operation",
  "Every operation first combines its computed result with the old output (entry-wise union under the accumulator when one is given, otherwise taking the result alone), then writes: positions the mask allows take exactly that combined content (including absence), positions it forbids keep their old content under MERGE and are deleted under REPLACE. A value mask allows positions holding a stored true value, a structural mask allows every stored position, a complemented mask allows exactly the others, and no mask allows everything. The accumulator is applied as accum(old, new).",
  ["inputs","configurations"],"for all operations x {no mask, value, structure, complement, structural complement} x {no accumulator, any binary operator} x {MERGE, REPLACE} x shapes and contents",
  "The product of mask kind, accumulator, output mode, operation and fill pattern is far larger than the sampled test matrices; stored-false mask entries, empty rows and accumulate-with-complement are only touched in spots.",
  [OPS]+both("sparse_helpers.hpp","sparse_mxm.hpp","sparse_mxv.hpp","sparse_vxm.hpp","sparse_ewiseadd.hpp","sparse_ewisemult.hpp","sparse_apply.hpp","sparse_reduce.hpp","sparse_extract.hpp","sparse_assign.hpp","sparse_transpose.hpp","sparse_kronecker.hpp"),
  [("ewise_or_opt_accum / write_with_opt_mask",SEQ+"sparse_helpers.hpp"),("masked_accum / masked_merge in the specialised kernels",OPT+"sparse_helpers.hpp, sparse_mxm_*.hpp")],
  ["contents of the output container after each call"])
p("C04","mxm computes the semiring matrix product for all four transposition forms",
  "For A, A', B and B' in any combination, mxm's result has an entry at (i,j) exactly when some k has both operand entries stored, with value the semiring-add of semiring-multiply(a_ik, b_kj), a on the left, over all such k; the result then goes through the write rule. This holds for non-commutative multiplies, operands of different element types, empty rows and columns, any mask and accumulator.",
  ["inputs","configurations"],"for all shapes, contents, semirings, masks, accumulators, output modes and transposition flags",
  "The optimised platform has 4 x 5 hand-written kernels; tests run most with one commutative integer semiring on small full-ish matrices.",
  [OPS,SEQ+"sparse_mxm.hpp",OPT+"sparse_mxm.hpp",OPT+"sparse_mxm_AB.hpp",OPT+"sparse_mxm_ABT.hpp",OPT+"sparse_mxm_ATB.hpp",OPT+"sparse_mxm_ATBT.hpp"],
  [("row kernels axpy/dot/masked_axpy",OPT+"sparse_helpers.hpp"),("dispatch",OPT+"sparse_mxm.hpp")],["contents of C"])
p("C05","mxv and vxm compute semiring matrix-vector products",
  "mxv(A,u) has an entry at i exactly when some stored a_ik meets a stored u_k, with value the semiring-add over k of multiply(a_ik, u_k); vxm(u,A) has an entry at j exactly when some stored u_k meets a stored a_kj, with value the add over k of multiply(u_k, a_kj). Operand order is kept for non-commutative multiplies and with transposed matrices, and the result goes through the write rule.",
  ["inputs","configurations"],"for all shapes, contents, semirings, masks, accumulators, output modes and transposition",
  "Tests sample a few literal operands with commutative semirings.",
  [OPS]+both("sparse_mxv.hpp","sparse_vxm.hpp"),[("dot / axpy forms",SEQ+"sparse_mxv.hpp"),("dot / axpy forms",SEQ+"sparse_vxm.hpp")],["contents of w"])
p("C06","eWiseAdd is the union and eWiseMult the intersection of operands",
  "eWiseAdd has an entry wherever either operand has one: op(left,right) where both do, otherwise the single stored value converted to the result type. eWiseMult has an entry exactly where both operands have one, valued op(left,right). Both hold for vectors and matrices, for transposed operands, operands of different element types, operators that are binary ops, monoids or a semiring's add/multiply, and the result goes through the write rule.",
  ["inputs","configurations"],"for all shapes, contents, operators, element types, masks, accumulators, output modes and transposition flags",
  "Tests use few shapes and same-typed operands; row-merge corner cases (one row empty, exhausted early) and typed temporaries are not swept.",
  [OPS]+both("sparse_ewiseadd.hpp","sparse_ewisemult.hpp","sparse_helpers.hpp"),[("ewise_or / ewise_and row merges",SEQ+"sparse_helpers.hpp")],["contents of the output"])
p("C07","extract gathers exactly the indexed sub-vector, sub-matrix, row or column",
  "extract returns at position k (or (k,l)) the source entry at the k-th (k-th,l-th) listed index, present exactly when the source entry is, for index lists in any order and with repetitions, for all-indices and contiguous index ranges, for plain and transposed sources, and for single columns or rows. The result goes through the write rule.",
  ["inputs","configurations"],"for all sources, index lists, masks, accumulators and output modes",
  "Index lists are unbounded sequences; tests use a few sorted or lightly permuted ones.",
  [OPS,"src/graphblas/indices.hpp"]+both("sparse_extract.hpp"),[("vectorExtract / matrixExtract / column gather",SEQ+"sparse_extract.hpp")],["contents of the output"])
p("C08","assign writes exactly the indexed region of the output",
  "assign places source entry k (or (k,l), or a constant) at the k-th listed position; inside the indexed region, positions whose source entry is absent are deleted unless an accumulator is given, and outside the region content is unchanged before the mask is applied. Row and column assignment affect only that row or column, REPLACE included; index order never matters for constants and repeated indices write the constant once. The result goes through the write rule.",
  ["inputs","configurations"],"for all outputs, sources, constants, index lists, masks, accumulators and output modes",
  "Deletion inside the stencil versus preservation outside, combined with mask and REPLACE, has many cases; tests check a few literal ones.",
  [OPS,"src/graphblas/indices.hpp"]+both("sparse_assign.hpp"),[("stencil expansion and ewise_or_stencil(_opt_accum)",SEQ+"sparse_assign.hpp, sparse_helpers.hpp")],["contents of the output"])
p("C09","apply maps every stored value and only stored values",
  "apply with a unary operator gives an entry exactly where the input has one, valued f(value); with a binary operator and a bound scalar it gives op(scalar,value) when the scalar is bound first and op(value,scalar) when bound second. It holds for vectors, matrices and transposed matrices, also when f turns values into zero (the entry stays stored), and the result goes through the write rule.",
  ["inputs","configurations"],"for all inputs, operators, bound scalars, masks, accumulators and output modes",
  "Tests sample literal inputs with few operators.",
  [OPS]+both("sparse_apply.hpp"),[("apply loops",SEQ+"sparse_apply.hpp")],["contents of the output"])
p("C10","reduce folds exactly the stored values, per row, per column or overall",
  "Reducing a matrix to a vector gives an entry for exactly the rows (columns when transposed) that hold a value, valued the fold of that row's stored values; reducing a vector or matrix to a scalar gives the fold of all stored values, or the monoid identity when nothing is stored. With an accumulator the old output (scalar or vector entry) is combined as accum(old, fold); vector results go through the write rule.",
  ["inputs","configurations"],"for all inputs, monoids, operators, masks, accumulators and output modes",
  "Empty rows, empty inputs with accumulators and non-plus monoids are sparsely sampled.",
  [OPS]+both("sparse_reduce.hpp"),[("reduction helper",SEQ+"sparse_reduce.hpp, sparse_helpers.hpp")],["contents of w / val"])
p("C11","transpose and kronecker compute their defining matrices",
  "transpose writes entry (i,j) of its input at (j,i) and nothing else (transposing a transposed view copies). kronecker of an m-by-n and p-by-q matrix has at (i*p+k, j*q+l) the value op(a_ij, b_kl), exactly when both are stored, also with transposed operands. Both results go through the write rule.",
  ["inputs","configurations"],"for all shapes, contents, operators, masks, accumulators, output modes and transposition flags",
  "Tests use a few literal matrices, mostly commutative operators and no transposed operands.",
  [OPS]+both("sparse_transpose.hpp","sparse_kronecker.hpp"),[("column-to-row scatter",SEQ+"sparse_transpose.hpp"),("block placement",SEQ+"sparse_kronecker.hpp")],["contents of C"])
p("C12","Views are equivalent to the objects they denote",
  "Passing transpose(A) as an operand gives the same result as passing a matrix holding A's transpose, and passing complement(M), structure(M) or complement(structure(M)) as a mask gives the same result as passing a mask that stores true exactly at the positions that view allows. Views report the shape, and structural views the number of stored values, of what they denote, and creating or using one never changes the viewed object.",
  ["inputs","configurations"],"for all operations accepting views, all contents including stored false values in masks",
  "The equivalence relates two runs over all inputs; tests compare single runs with literals.",
  ["src/graphblas/TransposeView.hpp","src/graphblas/ComplementView.hpp","src/graphblas/StructureView.hpp","src/graphblas/StructuralComplementView.hpp"]+both("sparse_helpers.hpp"),
  [("view types","src/graphblas/*View.hpp"),("check_mask/advance_and_check_mask_iterator",SEQ+"sparse_helpers.hpp")],["contents of the output; view accessors"])
p("C13","Rejected calls report the right error and change nothing",
  "A call whose operand, output, mask or index-list sizes do not agree raises the dimension error; an index outside the object raises an index error; reading a missing element, resizing or constructing with zero size, or assigning between differently sized objects raises the documented error. A rejected operation or element access leaves every argument exactly as it was, and a call whose arguments do agree is never rejected.",
  ["inputs","configurations"],"for all operations and methods, all combinations of shapes and indices",
  "Tests try one or two bad shapes per operation; which of the many shape constraints is checked, and before or after the output is touched, needs every combination.",
  ["src/graphblas/detail/checks.hpp","src/graphblas/exceptions.hpp",OPS]+both("LilSparseMatrix.hpp","BitmapSparseVector.hpp","sparse_assign.hpp","sparse_extract.hpp"),
  [("check_* helpers called first in every operation","src/graphblas/detail/checks.hpp"),("index bound checks",SEQ+"sparse_assign.hpp, sparse_extract.hpp")],["exception type; contents of all arguments after the throw"])
p("C14","Output may alias operands and mask",
  "Every operation gives the same output when its output container is also an operand, both operands, or the mask as when distinct copies are passed, in every mask, accumulator and output mode and with transposed or complemented views of the aliased container.",
  ["inputs","configurations"],"for all operations whose shapes permit aliasing, all alias patterns",
  "Row-by-row kernels that write the output while still reading operands only fail on specific sparsity patterns; tests hardly alias.",
  [OPS]+both("sparse_mxm.hpp","sparse_mxv.hpp","sparse_vxm.hpp","sparse_ewiseadd.hpp","sparse_ewisemult.hpp","sparse_apply.hpp","sparse_assign.hpp","sparse_extract.hpp","sparse_transpose.hpp","sparse_helpers.hpp")+[OPT+"sparse_mxm_AB.hpp",OPT+"sparse_mxm_ABT.hpp",OPT+"sparse_mxm_ATB.hpp",OPT+"sparse_mxm_ATBT.hpp"],
  [("temporary result before write; swap-free row kernels",OPT+"sparse_mxm*.hpp")],["contents of the output"])
p("C15","A call depends only on abstract contents and changes only its output",
  "In any program, the effect of an operation depends only on the shapes and stored entries of its arguments, not on how those arguments were produced, and it changes nothing but its output container: inputs, masks, index lists and unrelated containers keep their contents. The output of one call is immediately usable by the next with all observers in agreement.",
  ["programs","histories"],"for all programs composed of container methods and operations",
  "Tests build operands from literals; states reached by chains of operations (leftover capacity, empty rows, stale counts) are not explored.",
  [OPS]+both("LilSparseMatrix.hpp","BitmapSparseVector.hpp","sparse_helpers.hpp"),[("setRow/mergeRow/setContents keep counts",SEQ+"LilSparseMatrix.hpp, BitmapSparseVector.hpp")],["contents of all live containers after each call"])
p("C16","Operators, monoids and semirings have their defined values and identities",
  "Every supplied unary and binary operator computes its defined function in its declared domains (the bitwise ones are for integers); every monoid's identity is neutral on both sides and its operator is associative and commutative on the domain; every semiring pairs the add monoid and the multiply its name says, and reports that monoid's identity as its zero. Operators over different argument and result types convert each argument as C++ does, apply the function and deliver it in their result type. This holds at domain limits (type minimum and maximum, infinities, true/false).",
  ["inputs","configurations"],"for all values of each domain, for signed, unsigned, boolean and floating element types and their mixtures",
  "Tests evaluate each operator at one or two points; identities at type limits differ per type.",
  ["src/graphblas/algebra.hpp"],[("operator structs and GEN_GRAPHBLAS_MONOID/SEMIRING","src/graphblas/algebra.hpp")],["values returned by operator(), identity(), zero(), add(), mult()"])
p("C17","Mixed element types convert only at the documented points",
  "When operands, mask, accumulator and output have different element types, each operand value is converted to the operator's input type, results stay in the operator's result type until accumulation or output, accumulation happens in the accumulator's types, and only the final value is converted to the output's type. No value is narrowed through an operand's or the output's type on the way, on any transposition, mask or accumulator path.",
  ["inputs","configurations"],"for all combinations of element types of output, mask, operands and operator domains",
  "Existing tests are almost all same-typed, so a temporary of the wrong element type is invisible.",
  both("sparse_ewiseadd.hpp","sparse_ewisemult.hpp","sparse_mxm.hpp","sparse_mxv.hpp","sparse_vxm.hpp","sparse_apply.hpp","sparse_reduce.hpp","sparse_assign.hpp","sparse_extract.hpp","sparse_helpers.hpp"),
  [("types of temporaries and static_casts",SEQ+"sparse_*.hpp")],["values stored in the output"])
p("C18","Both platforms implement the same abstract machine",
  "Any program of container methods, operations and algorithms gives identical shapes, entries, values, scalars and errors whether it is built for the sequential or the optimized_sequential platform.",
  ["programs","configurations"],"for all programs over the public interface",
  "Tests run the same literals on each platform separately and never compare; the optimised kernels have many more paths than the shared tests exercise.",
  [OPS,"src/graphblas/platforms/sequential/sparse_mxm.hpp",OPT+"sparse_mxm.hpp",OPT+"sparse_mxm_AB.hpp",OPT+"sparse_mxm_ABT.hpp",OPT+"sparse_mxm_ATB.hpp",OPT+"sparse_mxm_ATBT.hpp"]+both("sparse_helpers.hpp","LilSparseMatrix.hpp","BitmapSparseVector.hpp"),
  [("platform selection by include path","src/CMakeLists.txt"),("twin backends","src/graphblas/platforms/")],["all observable results of the same program on both builds"])
p("C19","Matrix utilities and index sequences compute what they say",
  "diag places a vector on the diagonal, scaled_identity builds the scaled identity, split separates the strictly upper part from the rest without losing or changing an entry, and normalize_rows/normalize_cols divide each entry by its row/column sum for any shape, leaving empty rows/columns empty. A contiguous index range [b,e) enumerates b..e-1 wherever an index list is accepted.",
  ["inputs"],"for all shapes, contents and sequences",
  "Tests use square literals.",
  ["src/graphblas/matrix_utils.hpp","src/graphblas/indices.hpp"],[("diag, scaled_identity, split, normalize_*","src/graphblas/matrix_utils.hpp"),("IndexSequenceRange","src/graphblas/indices.hpp")],["returned matrices"])
p("C20","Breadth-first searches return correct levels and shortest-path-tree parents",
  "For every graph and root, each level BFS (single, batched, masked and appendix variants) assigns level 1 to the root and 1 + shortest hop distance to each reachable vertex and nothing to unreachable ones. Each parent BFS returns the root as its own parent and, for each reachable vertex, an in-neighbour one hop closer to the root (the smallest such index), and nothing for unreachable ones. Arguments whose sizes do not match the graph are refused.",
  ["inputs"],"for all directed graphs (self loops allowed, edges stored with non-zero values), roots and batches of roots",
  "Tests use a couple of fixed graphs.",
  ["src/algorithms/bfs.hpp","src/algorithms/appendix_algorithms.hpp"],[("masked wavefront loop","src/algorithms/bfs.hpp")],["levels / parent vectors and matrices"])
p("C21","Shortest-path routines return exact distances and detect negative cycles",
  "For every graph with no negative cycle reachable from the source, sssp, batch_sssp, filtered_sssp and apsp return for every vertex the minimum path weight (absent if unreachable), including zero-weight and negative edges where the routine admits them, and the convergence flag is true; sssp and batch_sssp return false exactly when a reachable negative cycle exists. Delta-stepping returns the same distances for non-negative weights and every positive delta, whether or not the distance type is the graph's. What the output held before the call does not matter.",
  ["inputs"],"for all weighted directed graphs, sources and deltas",
  "Tests use two or three fixed positive-weight graphs; bucket boundaries, zero-weight edges and negative cycles are not swept.",
  ["src/algorithms/sssp.hpp","src/algorithms/apsp.hpp"],[("min-plus relaxation loops","src/algorithms/sssp.hpp"),("row/column outer product loop","src/algorithms/apsp.hpp")],["distance vectors/matrices, returned flag"])
p("C22","Graph metrics agree with their definitions",
  "Vertex in-, out- and total degree count stored edges; graph distance, eccentricity, radius, diameter and closeness equal the values defined by shortest path distances (over reachable vertices) of the weighted graph; vertex degree rejects out-of-range vertices.",
  ["inputs"],"for all weighted graphs and vertices",
  "Tests use one fixed graph.",
  ["src/algorithms/metrics.hpp"],[("degree and distance reductions","src/algorithms/metrics.hpp")],["returned scalars and vectors"])
p("C23","All triangle counters return the number of triangles",
  "For every simple undirected graph, each triangle-counting variant returns the number of vertex triples that are pairwise adjacent, whatever the vertex numbering.",
  ["inputs"],"for all simple undirected graphs","Tests use three fixed graphs.",
  ["src/algorithms/triangle_count.hpp","src/algorithms/appendix_algorithms.hpp"],[("masked L*U products","src/algorithms/triangle_count.hpp")],["returned count"])
p("C24","k-truss returns the maximal subgraph with edge support k-2",
  "For every simple undirected graph and k >= 3, both k-truss routines return the unique maximal edge set in which every edge lies in at least k-2 triangles of that set (as incidence rows or as adjacency), and return an empty result when there is none.",
  ["inputs"],"for all simple undirected graphs and k","Tests use one fixed graph and k=3..5.",
  ["src/algorithms/k_truss.hpp"],[("peeling loops","src/algorithms/k_truss.hpp")],["returned matrix"])
p("C25","MIS returns an independent and maximal set for every seed",
  "For every simple undirected graph and every random seed, the returned set contains no two adjacent vertices and every vertex outside it has a neighbour inside it; isolated vertices are always members.",
  ["inputs","schedules"],"for all graphs and all random draws","Tests use a few graphs and few seeds.",
  ["src/algorithms/mis.hpp","src/algorithms/appendix_algorithms.hpp"],[("Luby rounds","src/algorithms/mis.hpp")],["independent_set"])
p("C26","MST returns a spanning tree of minimum weight",
  "For every connected undirected weighted graph (negative and equal weights included), mst returns the weight of a minimum spanning tree, and the parent list describes a spanning tree of existing edges with exactly that weight, rooted at vertex 0. Weights are exact in the type the graph stores them in.",
  ["inputs"],"for all connected weighted graphs","Tests use three fixed graphs.",
  ["src/algorithms/mst.hpp"],[("Prim loop with custom tuple operators","src/algorithms/mst.hpp")],["returned weight and parents"])
p("C27","Max-flow routines return the minimum cut value",
  "For every directed capacity network with distinct source and sink, push-relabel and Ford-Fulkerson return the maximum flow value, i.e. the capacity of a minimum source-sink cut, zero if the sink is unreachable.",
  ["inputs"],"for all networks with positive integer capacities, including anti-parallel edges","Tests use three fixed networks.",
  ["src/algorithms/maxflow.hpp"],[("push/relabel/discharge","src/algorithms/maxflow.hpp"),("BFS augmentation","src/algorithms/maxflow.hpp")],["returned value"])
p("C28","Betweenness centrality equals its path-counting definition",
  "For every simple unweighted graph, each vertex betweenness routine returns for each vertex v the sum over the given sources s != v and all targets t != v, s of the fraction of shortest s-t paths through v, up to floating rounding; edge betweenness returns for each edge the number of shortest paths, over all ordered pairs of vertices, that run along it. The result of a batch is the sum over its sources, for any batch size.",
  ["inputs"],"for all simple directed graphs and source batches","Tests use two or three fixed graphs; the appendix variant is tested with full batches only.",
  ["src/algorithms/bc.hpp","src/algorithms/appendix_algorithms.hpp"],[("BFS and back-propagation phases","src/algorithms/bc.hpp")],["returned centralities"])
p("C29","PageRank converges to the damped random-walk fixed point",
  "For every graph with positive edge weights and every damping factor in (0,1), page_rank run to a tight threshold returns ranks r with r_j = (1-d)/n + d * sum over stored in-edges i->j of r_i * w_ij / rowsum_i, within tolerance, for every vertex, including vertices without in-edges or without out-edges. After k iterations the ranks are exactly the k-th iterate from the uniform start, and iteration stops at the given threshold or number of iterations; damping factor and threshold have the documented defaults.",
  ["inputs"],"for all graphs and damping factors","Tests use two fixed graphs.",
  ["src/algorithms/page_rank.hpp","src/graphblas/matrix_utils.hpp"],[("power iteration","src/algorithms/page_rank.hpp")],["page_rank vector"])
p("C30","Clustering routines return valid, locally stable clusterings",
  "Louvain clustering of an undirected graph returns exactly one cluster per vertex, and no single move of a vertex to another vertex's cluster (a neighbour's, for the masked version) can raise its modularity gain; peer-pressure clustering performs its voting step (votes normalised by out-weight, or not in the second version; most votes win, ties to the largest cluster index) until nothing changes or the given number of rounds, so at convergence every vertex with in-edges is in exactly one cluster; each round of Markov clustering raises the matrix to the e-th power, every element to the r-th, and normalises the columns, so its columns sum to one with non-negative entries. Cluster-assignment readers return the cluster of each vertex.",
  ["inputs","schedules"],"for all undirected graphs with positive weights and all random seeds","Tests compare a few fixed graphs with stored answers.",
  ["src/algorithms/cluster.hpp","src/algorithms/cluster_louvain.hpp"],[("vote/move loops","src/algorithms/cluster.hpp, cluster_louvain.hpp")],["returned cluster matrices"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
