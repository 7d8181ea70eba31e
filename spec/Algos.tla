-------------------------------- MODULE Algos --------------------------------
(***************************************************************************)
(* What the algorithms of src/algorithms must return.                      *)
(*                                                                         *)
(* A graph is a square matrix g: g[i][j] is the weight of the edge from i  *)
(* to j, NONE if there is none.  Vertices are 1..n here and 0..n-1 in the  *)
(* library's answers.  Nothing in this module says how an algorithm works; *)
(* every operator is the textbook definition of the result.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == -999999
V(g) == 1..Len(g)
IsEdge(g, i, j) == g[i][j] # NONE
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y
(* (TLCEval of a matrix leaves its rows unevaluated: they have a TLCEval of their own.)
   the element of a singleton: {Op(z) : z \in {TLCEval(x)}} evaluates x just once *)
Only(X) == CHOOSE x \in X : TRUE
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == {s[k] : k \in DOMAIN s}

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE SumTo(s, k - 1) + s[k]
Sum(s) == SumTo(s, Len(s))                     \* of a sequence of numbers
RECURSIVE SumOver(_, _)
SumOver(X, f) == IF X = {} THEN 0               \* of f[x], x \in X
                 ELSE LET x == CHOOSE x \in X : TRUE IN f[x] + SumOver(X \ {x}, f)
SumStored(s) == Sum([k \in DOMAIN s |-> IF s[k] = NONE THEN 0 ELSE s[k]])
NumStored(s) == Cardinality({k \in DOMAIN s : s[k] # NONE})
Transp(g) == [i \in 1..Len(g[1]) |-> [j \in 1..Len(g) |-> g[j][i]]]
Symmetric(g) == \A i, j \in V(g) : g[i][j] = g[j][i]
Loopless(g) == \A i \in V(g) : g[i][i] = NONE

(***************************************************************************)
(* Breadth first search from a set of roots.                               *)
(***************************************************************************)
RECURSIVE Flood(_, _, _)
Flood(g, lev, d) ==
  LET new == [v \in V(g) |-> IF lev[v] # NONE THEN lev[v]
                ELSE IF \E u \in V(g) : lev[u] = d /\ IsEdge(g, u, v) THEN d + 1 ELSE NONE]
  IN IF new = lev THEN lev ELSE Flood(g, TLCEval(new), d + 1)

(* 1 + number of hops from the nearest root. *)
Levels(g, R) == Flood(g, [v \in V(g) |-> IF v \in R THEN 1 ELSE NONE], 1)

(* The smallest in-neighbour one hop closer to the roots; a root is its own parent. *)
Parents(g, R) ==
  LET lev == Levels(g, R) IN
  [v \in V(g) |-> IF v \in R THEN v - 1
                  ELSE IF lev[v] = NONE THEN NONE
                  ELSE MinOf({u \in V(g) : IsEdge(g, u, v) /\ lev[u] = lev[v] - 1}) - 1]

(***************************************************************************)
(* Shortest paths.  Relax takes one more edge into account.                *)
(***************************************************************************)
Relax(g, d) ==
  [v \in V(g) |->
    LET c == {d[u] + g[u][v] : u \in {u \in V(g) : d[u] # NONE /\ IsEdge(g, u, v)}} \cup
             (IF d[v] = NONE THEN {} ELSE {d[v]})
    IN IF c = {} THEN NONE ELSE MinOf(c)]
RECURSIVE RelaxN(_, _, _)
RelaxN(g, d, k) == IF k = 0 THEN d
                   ELSE LET e == Relax(g, d) IN IF e = d THEN d ELSE RelaxN(g, TLCEval(e), k - 1)
From(g, s) == [v \in V(g) |-> IF v = s THEN 0 ELSE NONE]
(* Lightest walk from s with at most n-1 edges: the distance if there is no
   negative cycle that s reaches. *)
Dist(g, s) == RelaxN(g, From(g, s), Len(g) - 1)
NegCycle(g, s) == LET d == Dist(g, s) IN Relax(g, d) # d
DistAll(g) == [s \in V(g) |-> Dist(g, s)]

Ecc(d) == MaxOf({d[v] : v \in {v \in DOMAIN d : d[v] # NONE}})
Radius(D) == MinOf({Ecc(D[s]) : s \in DOMAIN D})
Diameter(D) == MaxOf({Ecc(D[s]) : s \in DOMAIN D})

(***************************************************************************)
(* Triangles and trusses.  Undirected edges are pairs <<i,j>> with i < j.  *)
(***************************************************************************)
UEdges(g) == {p \in V(g) \X V(g) : p[1] < p[2] /\ IsEdge(g, p[1], p[2])}
Triangles(g) == Cardinality({t \in V(g) \X V(g) \X V(g) :
                   /\ t[1] < t[2] /\ t[2] < t[3]
                   /\ IsEdge(g, t[1], t[2]) /\ IsEdge(g, t[2], t[3]) /\ IsEdge(g, t[1], t[3])})
Adj(E, i, j) == <<i, j>> \in E \/ <<j, i>> \in E
Support(E, p, vs) == Cardinality({w \in vs : Adj(E, p[1], w) /\ Adj(E, p[2], w)})
RECURSIVE Peel(_, _, _)
Peel(E, k, vs) == LET keep == {p \in E : Support(E, p, vs) >= k - 2} IN
                  IF keep = E THEN E ELSE Peel(TLCEval(keep), k, vs)
Truss(g, k) == Peel(UEdges(g), k, V(g))

(***************************************************************************)
(* Independent sets.                                                       *)
(***************************************************************************)
Independent(g, X) == \A i, j \in X : i # j => ~IsEdge(g, i, j)
MaximalIn(g, X) == \A v \in V(g) \ X : \E u \in X : IsEdge(g, u, v)

(***************************************************************************)
(* Spanning trees: Prim's rule gives the minimum weight.                   *)
(***************************************************************************)
RECURSIVE Prim(_, _, _)
Prim(g, T, w) ==
  LET out == {p \in T \X (V(g) \ T) : IsEdge(g, p[1], p[2])} IN
  IF T = V(g) THEN w
  ELSE IF out = {} THEN NONE                    \* not connected
  ELSE LET b == CHOOSE p \in out : \A q \in out : g[p[1]][p[2]] <= g[q[1]][q[2]]
       IN Prim(g, T \cup {b[2]}, w + g[b[1]][b[2]])
MSTWeight(g) == Prim(g, {1}, 0)
RECURSIVE Climb(_, _, _)
Climb(par, v, k) == IF v = 1 THEN TRUE ELSE IF k = 0 \/ par[v] = NONE THEN FALSE
                    ELSE Climb(par, par[v] + 1, k - 1)
(* par describes a spanning tree of g, rooted at vertex 1, of weight w *)
IsTree(g, par, w) ==
  /\ par[1] = NONE \/ par[1] = 0
  /\ \A v \in V(g) \ {1} : par[v] # NONE /\ par[v] + 1 \in V(g) /\ IsEdge(g, par[v] + 1, v)
  /\ \A v \in V(g) : Climb(par, v, Len(g))
  /\ Sum([v \in V(g) |-> IF v = 1 THEN 0 ELSE g[par[v] + 1][v]]) = w

(***************************************************************************)
(* Maximum flow = capacity of a minimum cut.                               *)
(***************************************************************************)
CutCap(g, X) == Sum([i \in V(g) |-> IF i \notin X THEN 0 ELSE
                     Sum([j \in V(g) |-> IF j \in X \/ ~IsEdge(g, i, j) THEN 0 ELSE g[i][j]])])
FlowValue(f, s) == Sum(f[s]) - Sum([i \in DOMAIN f |-> f[i][s]])
IsFlow(g, f, s, t) ==                          \* a flow proves that no cut is smaller than its value
  /\ \A i, j \in V(g) : f[i][j] >= 0 /\ f[i][j] <= (IF IsEdge(g, i, j) THEN g[i][j] ELSE 0)
  /\ \A i \in V(g) \ {s, t} : Sum(f[i]) = Sum([j \in V(g) |-> f[j][i]])
MinCut(g, s, t) == MinOf({CutCap(g, X \cup {s}) : X \in SUBSET (V(g) \ {s, t})})

(***************************************************************************)
(* Betweenness, in units of 1/SC.  PathCounts(g, s)[v] is the number of    *)
(* shortest paths from s to v.                                             *)
(***************************************************************************)
SC == 100000
RECURSIVE CountUp(_, _, _, _, _)
CountUp(g, lev, cnt, d, m) ==
  IF d > m THEN cnt
  ELSE CountUp(g, lev, TLCEval([v \in V(g) |-> IF lev[v] # d THEN cnt[v]
         ELSE SumOver({u \in V(g) : lev[u] = d - 1 /\ IsEdge(g, u, v)}, cnt)]), d + 1, m)
PathCounts(g, s, lev) ==
  CountUp(g, lev, [v \in V(g) |-> IF v = s THEN 1 ELSE 0], 2, MaxOf({lev[v] : v \in V(g)}))
PathTables(g) == LET L == TLCEval([s \in V(g) |-> Levels(g, {s})])
                     C == TLCEval([s \in V(g) |-> PathCounts(g, s, L[s])])
                 IN [lev |-> L, cnt |-> C]
Between(g, T, S, v) ==
  Sum([s \in V(g) |-> IF s \notin S \/ s = v \/ T.lev[s][v] = NONE THEN 0
    ELSE Sum([t \in V(g) |-> IF t = v \/ t = s \/ T.lev[s][t] = NONE \/ T.lev[v][t] = NONE THEN 0
      ELSE IF T.lev[s][v] + T.lev[v][t] - 1 # T.lev[s][t] THEN 0
      ELSE (SC * T.cnt[s][v] * T.cnt[v][t]) \div T.cnt[s][t]])])
(* For an edge the library counts the shortest paths, of all pairs, along it. *)
EdgeBetween(g, T, u, v) ==
  Sum([s \in V(g) |-> IF T.lev[s][u] = NONE THEN 0
    ELSE Sum([t \in V(g) |-> IF t = s \/ T.lev[s][t] = NONE \/ T.lev[v][t] = NONE THEN 0
      ELSE IF T.lev[s][u] + T.lev[v][t] # T.lev[s][t] THEN 0
      ELSE T.cnt[s][u] * T.cnt[v][t]])])
(* x (units of 1/SC, rounded) agrees with the truncated sum b over m pairs *)
CloseBC(x, b, m) == x # NONE /\ Abs(x - b) <= m + 2 + (b \div 50000)

(***************************************************************************)
(* PageRank, ranks in units of 1/PR, damping d in percent.                 *)
(***************************************************************************)
PR == 1000000
RankErr(g, rs, r, d, j) ==      \* r_j minus what r says it should be
  r[j] - (PR * (100 - d)) \div (100 * Len(g))
       - (d * Sum([i \in V(g) |-> IF IsEdge(g, i, j) THEN (r[i] * g[i][j]) \div rs[i] ELSE 0])) \div 100
IsRank(g, r, d) ==
  LET rs == [i \in V(g) |-> SumStored(g[i])] IN
  /\ \A j \in V(g) : r[j] >= 0 /\ r[j] <= 2 * PR
  /\ \A j \in V(g) : Abs(RankErr(g, rs, r, d, j)) <= Len(g) + 20

(***************************************************************************)
(* Clusterings.  c[v] is the cluster of v.                                 *)
(***************************************************************************)
(* Louvain.  Gain (times the total weight K) of vertex i being in cluster x. *)
Deg(g) == [i \in V(g) |-> SumStored(g[i])]
Gain(g, k, K, c, i, x) ==
  LET rest == {j \in V(g) \ {i} : c[j] = x} IN
  SumOver(rest, [j \in rest |-> K * ((IF IsEdge(g, i, j) THEN g[i][j] ELSE 0) + (IF IsEdge(g, j, i) THEN g[j][i] ELSE 0))
                                - 2 * k[i] * k[j]])
Stable(g, c, masked) ==
  LET k == Deg(g)  K == Sum(k) IN
  \A i \in V(g) : NumStored(g[i]) = 0 \/
    LET others == {j \in V(g) \ {i} : IF masked THEN IsEdge(g, i, j) \/ IsEdge(g, j, i) ELSE NumStored(g[j]) > 0}
        own == Gain(g, k, K, c, i, c[i])
    IN \A j \in others : Gain(g, k, K, c, i, c[j]) <= own

(* Peer pressure: cl is the set of pairs <<cluster, vertex>>; every vertex votes
   its clusters for its out-neighbours, with the weight of the edge divided by
   its total out-weight (norm) or not; the winner is the largest cluster with the
   most votes; a vertex without votes is in no cluster.  Votes are in units of
   1/PP so that the fractions of the graphs used are exact. *)
PP == 720720
Votes(g, k, cl, x, j, norm) ==
  Sum([i \in V(g) |-> IF <<x, i>> \in cl /\ IsEdge(g, i, j)
                      THEN (IF norm THEN (PP * g[i][j]) \div k[i] ELSE g[i][j]) ELSE 0])
Voters(g, cl, x, j) == \E i \in V(g) : <<x, i>> \in cl /\ IsEdge(g, i, j)
PeerStep(g, cl, norm) ==
  LET k == Deg(g) IN
  UNION {LET cand == {x \in V(g) : Voters(g, cl, x, j)}
             n == [x \in cand |-> Votes(g, k, cl, x, j, norm)]
         IN IF cand = {} THEN {}
            ELSE {<<MaxOf({x \in cand : \A y \in cand : n[x] >= n[y]}), j>>} : j \in V(g)}
RECURSIVE PeerRun(_, _, _, _)
PeerRun(g, cl, norm, k) ==
  IF k = 0 THEN cl ELSE LET nx == PeerStep(g, cl, norm) IN IF nx = cl THEN cl ELSE PeerRun(g, TLCEval(nx), norm, k - 1)

(* Markov clustering, entries in units of 1/MC: one round is an expansion (the
   e-th power) and an inflation (elementwise r-th powers, of what is first scaled
   by the largest entry of the column; columns then sum to one), within rounding. *)
MC == 10000
Entry(x) == IF x = NONE THEN 0 ELSE x
MulM(a, b) == LET n == Len(a) IN
  [i \in 1..n |-> TLCEval([j \in 1..n |-> Sum([k \in 1..n |-> a[i][k] * b[k][j]]) \div MC])]
RECURSIVE PowM(_, _)
PowM(m, e) == IF e = 1 THEN m ELSE Only({MulM(p, m) : p \in {TLCEval(PowM(m, e - 1))}})
RECURSIVE PowU(_, _)
PowU(x, r) == IF r = 1 THEN x ELSE (PowU(x, r - 1) * x) \div MC
Infl(m, r) == LET n == Len(m)
                  top == TLCEval([j \in 1..n |-> MaxOf({m[i][j] : i \in 1..n})])
                  q == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF top[j] = 0 THEN 0 ELSE PowU((MC * m[i][j]) \div top[j], r)])])
                  s == TLCEval([j \in 1..n |-> Sum([i \in 1..n |-> q[i][j]])])
              IN [i \in 1..n |-> TLCEval([j \in 1..n |-> IF s[j] = 0 THEN 0 ELSE (MC * q[i][j]) \div s[j]])]
ColNorm(g) == LET n == Len(g)
                  s == [j \in 1..n |-> SumStored([i \in 1..n |-> g[i][j]])]
              IN [i \in 1..n |-> TLCEval([j \in 1..n |-> IF IsEdge(g, i, j) THEN (MC * g[i][j]) \div s[j] ELSE 0])]
MarkovStep(m, e, r) == Only({Infl(p, r) : p \in {TLCEval(PowM(z, e)) : z \in {TLCEval(m)}}})
RECURSIVE MarkovRun(_, _, _, _)
MarkovRun(m, e, r, k) == IF k = 0 THEN m ELSE Only({MarkovRun(nx, e, r, k - 1) : nx \in {TLCEval(MarkovStep(m, e, r))}})

(***************************************************************************)
(* Large graphs are lists e of edges <<from, to, weight>> on vertices      *)
(* 0..n-1.  Levels and distances are recognised by their local             *)
(* characterisation instead of being computed: root one (zero), no edge    *)
(* improves, and every other reached vertex has an edge that attains.      *)
(***************************************************************************)
InEdges(n, e) == LET F[k \in 0..Len(e)] ==
                       IF k = 0 THEN [v \in 0..(n - 1) |-> {}]
                       ELSE [F[k - 1] EXCEPT ![e[k][2]] = @ \cup {<<e[k][1], e[k][3]>>}]
                 IN F[Len(e)]
At(x, v) == x[v + 1]
IsLevels(n, e, into, s, x) ==
  /\ Len(x) = n /\ At(x, s) = 1
  /\ \A k \in DOMAIN e : At(x, e[k][1]) # NONE =>
        At(x, e[k][2]) # NONE /\ At(x, e[k][2]) <= At(x, e[k][1]) + 1
  /\ \A v \in 0..(n - 1) : v = s \/ At(x, v) = NONE \/
        (At(x, v) > 1 /\ \E p \in into[v] : At(x, p[1]) = At(x, v) - 1)
IsParents(n, into, s, lev, x) ==
  /\ Len(x) = n /\ At(x, s) = s
  /\ \A v \in 0..(n - 1) : v = s \/
       IF At(lev, v) = NONE THEN At(x, v) = NONE
       ELSE At(x, v) = MinOf({p[1] : p \in {p \in into[v] : At(lev, p[1]) = At(lev, v) - 1}})
(* positive weights *)
IsDist(n, e, into, s, x) ==
  /\ Len(x) = n /\ At(x, s) = 0
  /\ \A k \in DOMAIN e : At(x, e[k][1]) # NONE =>
        At(x, e[k][2]) # NONE /\ At(x, e[k][2]) <= At(x, e[k][1]) + e[k][3]
  /\ \A v \in 0..(n - 1) : v = s \/ At(x, v) = NONE \/
        (\E p \in into[v] : At(x, p[1]) # NONE /\ At(x, p[1]) + p[2] = At(x, v))
(* undirected, both directions listed *)
BigTriangles(n, e) ==
  LET up == InEdges(n, SelectSeq(e, LAMBDA x : x[1] > x[2]))    \* the larger neighbours
      ns == TLCEval([v \in 0..(n - 1) |-> {p[1] : p \in up[v]}])
  IN Sum([k \in DOMAIN e |-> IF e[k][1] < e[k][2] THEN Cardinality(ns[e[k][1]] \cap ns[e[k][2]]) ELSE 0])

(* The k-th iterate of page rank, from the uniform vector, and the mean square
   of the change from one to the next (in 1/PR^2, changes capped at 46000/PR). *)
RankStep(g, rs, r, d) ==
  [j \in V(g) |-> (PR * (100 - d)) \div (100 * Len(g))
       + (d * Sum([i \in V(g) |-> IF IsEdge(g, i, j) THEN (r[i] * g[i][j]) \div rs[i] ELSE 0])) \div 100]
RECURSIVE RankIter(_, _, _, _, _)
RankIter(g, rs, r, d, k) == IF k = 0 THEN r ELSE Only({RankIter(g, rs, nx, d, k - 1) : nx \in {TLCEval(RankStep(g, rs, r, d))}})
RankStart(g) == [j \in V(g) |-> PR \div Len(g)]
Cap(x) == IF Abs(x) > 46000 THEN 46000 ELSE x
MeanSq(a, b) == Sum([j \in DOMAIN a |-> (Cap(a[j] - b[j]) * Cap(a[j] - b[j])) \div Len(a)])
NearRank(a, b, m) == Len(a) = Len(b) /\ \A j \in DOMAIN a : a[j] # NONE /\ Abs(a[j] - b[j]) <= m
(* a is the first iterate after which the mean square change is below t *)
RECURSIVE FirstBelow(_, _, _, _, _, _, _)
FirstBelow(g, rs, d, r, a, t, k) ==
  LET nx == TLCEval(RankStep(g, rs, r, d))  m == MeanSq(nx, r)  e == t \div 20 IN
  \/ (m < t + e /\ NearRank(a, nx, (Len(g) + 20) * (k + 1)))
  \/ (m > t - e /\ k < 200 /\ FirstBelow(g, rs, d, nx, a, t, k + 1))
=============================================================================
