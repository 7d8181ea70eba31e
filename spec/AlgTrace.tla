------------------------------- MODULE AlgTrace -------------------------------
(***************************************************************************)
(* Answers recorded from the library's algorithms, one record per line,    *)
(* judged against the definitions of Algos (and Operators, Utilities).     *)
(* A record has the kind k of the call, the graph g and other inputs, the  *)
(* answers out.<field> (vectors of numbers, NONE where nothing is stored;  *)
(* a scalar is a vector of length one) and err.<field>, the exceptions     *)
(* that were thrown.  Bad(r) is the set of the fields that are wrong.      *)
(***************************************************************************)
EXTENDS Algos, Utilities, Operators, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

Out(r, f) == IF f \in DOMAIN r.out THEN r.out[f] ELSE <<>>
Err(r, f) == IF f \in DOMAIN r.err THEN r.err[f] ELSE ""
Got(r, f) == f \in DOMAIN r.out
(* fields fs must all have the value x *)
Differ(r, fs, x) == {f \in fs : Out(r, f) # x}
When(b, f) == IF b THEN {} ELSE {f}

BadBfs(r) ==
  Differ(r, {"par", "parw", "B3"}, TLCEval(Parents(r.g, {r.src + 1}))) \cup
  Differ(r, {"lev", "lvm", "lv2", "B1", "B2"}, TLCEval(Levels(r.g, {r.src + 1})))

(* one search per root; the vectors of a batch are the rows of a matrix *)
BadBfsb(r) ==
  Differ(r, {"batch"}, [k \in DOMAIN r.roots |-> Parents(r.g, {r.roots[k] + 1})]) \cup
  Differ(r, {"levm", "batchm"}, TLCEval([k \in DOMAIN r.roots |-> Levels(r.g, {r.roots[k] + 1})]))

(* One search from a set of roots.  The batched ones are given it as one row. *)
BadBfsr(r) ==
  LET R == {x + 1 : x \in Range(r.roots)} IN
  Differ(r, {"parw"}, Parents(r.g, R)) \cup
  Differ(r, {"lvm", "lv2"}, TLCEval(Levels(r.g, R)))

BadSssp(r) ==
  LET D == TLCEval([s \in V(r.g) |-> Dist(r.g, s)])
      neg == [s \in V(r.g) |-> Relax(r.g, D[s]) # D[s]]
      s == r.src + 1
  IN (IF neg[s] THEN {} ELSE Differ(r, {"sssp", "filt"}, D[s])) \cup
     Differ(r, {"ok", "okf"}, <<IF neg[s] THEN 0 ELSE 1>>) \cup
     Differ(r, {"okb"}, <<IF \E k \in DOMAIN r.srcs : neg[r.srcs[k] + 1] THEN 0 ELSE 1>>) \cup
     When(\/ \E k \in DOMAIN r.srcs : neg[r.srcs[k] + 1]
          \/ Out(r, "batch") = [k \in DOMAIN r.srcs |-> D[r.srcs[k] + 1]], "batch") \cup
     When((\E v \in V(r.g) : neg[v]) \/ Out(r, "apsp") = D, "apsp") \cup
     (IF Len(r.deltas) = 0 THEN {}
      ELSE When(Out(r, "delta") = [k \in DOMAIN r.deltas |-> D[s]], "delta"))

BadMetrics(r) ==
  LET n == Len(r.g)
      D == TLCEval(DistAll(r.g))
      vid == r.src + 1
      ind == IF vid > n THEN 0 ELSE NumStored([i \in 1..n |-> r.g[i][vid]])
      outd == IF vid > n THEN 0 ELSE NumStored(r.g[vid])
  IN IF vid > n
     THEN {f \in {"in", "outd", "deg"} : Err(r, f) # "DimensionException"}
     ELSE Differ(r, {"in"}, <<ind>>) \cup Differ(r, {"outd"}, <<outd>>) \cup
          Differ(r, {"deg"}, <<ind + outd>>) \cup
          Differ(r, {"dist"}, D[vid]) \cup Differ(r, {"distm"}, D) \cup
          Differ(r, {"ecc"}, <<Ecc(D[vid])>>) \cup Differ(r, {"rad"}, <<Radius(D)>>) \cup
          Differ(r, {"dia"}, <<Diameter(D)>>) \cup Differ(r, {"clo"}, <<SumStored(D[vid])>>)

BadTri(r) == Differ(r, {"tc", "lu", "l", "nt", "new", "B7"}, <<Triangles(r.g)>>)

(* inc: rows of the incidence matrix of the result; adj: the adjacency matrix,
   1 where an entry is stored *)
BadTruss(r) ==
  LET T == TLCEval(Truss(r.g, r.kk))
      inc == Out(r, "inc")  adj == Out(r, "adj")
      edge(row) == {v \in DOMAIN row : row[v] # NONE}
  IN When(/\ Got(r, "inc")
          /\ Len(inc) = Cardinality(T)
          /\ {edge(inc[k]) : k \in DOMAIN inc} = {{p[1], p[2]} : p \in T}
          /\ \A k \in DOMAIN inc : \A v \in DOMAIN inc[k] : inc[k][v] \in {NONE, 1}, "inc") \cup
     When(/\ Got(r, "adj") /\ Len(adj) = Len(r.g)
          /\ \A i, j \in V(r.g) : (adj[i][j] # NONE) <=> Adj(T, i, j), "adj")

BadMis(r) ==
  UNION {When(/\ Got(r, f)
              /\ \A k \in DOMAIN r.out[f] :
                   LET X == {v \in V(r.g) : r.out[f][k][v] = 1} IN
                   /\ Independent(r.g, X) /\ MaximalIn(r.g, X)
                   /\ \A v \in V(r.g) : r.out[f][k][v] \in {NONE, 1}, f) : f \in {"mis", "B6"}} \cup
  When(Got(r, "ids") /\ Len(r.out.ids) = Len(r.out.mis) /\
       \A k \in DOMAIN r.out.ids :
          LET ids == r.out.ids[k] IN
          /\ {ids[x] + 1 : x \in DOMAIN ids} = {v \in V(r.g) : r.out.mis[k][v] = 1}
          /\ \A x \in 1..(Len(ids) - 1) : ids[x] < ids[x + 1], "ids")

BadMst(r) ==
  LET w == MSTWeight(r.g) IN
  IF w = NONE THEN When(Err(r, "w") = "PanicException", "w")
  ELSE Differ(r, {"w"}, <<w>>) \cup When(Got(r, "par") /\ IsTree(r.g, r.out.par, w), "par")

BadFlow(r) == Differ(r, {"pr", "ff"}, <<MinCut(r.g, r.src + 1, r.sink + 1)>>)

(* a larger network: the flow r.f and the cut r.cut that come with the call prove its value *)
BadBflow(r) ==
  LET X == {x + 1 : x \in Range(r.cut)} IN
  IF Assert(IsFlow(r.g, r.f, r.src + 1, r.sink + 1) /\ r.src + 1 \in X /\ r.sink + 1 \notin X
            /\ CutCap(r.g, X) = FlowValue(r.f, r.src + 1), "the certificate of a flow is wrong")
  THEN Differ(r, {"pr", "ff"}, <<CutCap(r.g, X)>>) ELSE {}

BadBC(r) ==
  LET n == Len(r.g)
      T == TLCEval(PathTables(r.g))
      S == {x + 1 : x \in Range(r.srcs)}
      cnt == [v \in V(r.g) |-> Cardinality({k \in DOMAIN r.srcs : r.srcs[k] = v - 1})]
      one == TLCEval([v \in V(r.g) |-> Between(r.g, T, {r.srcs[1] + 1}, v)])
      part == TLCEval([v \in V(r.g) |-> Between(r.g, T, S, v)])
      all == TLCEval([v \in V(r.g) |-> Between(r.g, T, V(r.g), v)])
      ok(f, b) == /\ Got(r, f) /\ Len(r.out[f]) = n
                  /\ \A v \in V(r.g) : CloseBC(IF r.out[f][v] = NONE THEN 0 ELSE r.out[f][v], b[v], n * n)
  IN {f \in {"batch", "old", "alt", "altt", "altt2", "B5"} : ~ok(f, part)} \cup
     {f \in {"B4"} : ~ok(f, one)} \cup
     {f \in {"all"} : (r.d \in {"f64", "f32"}) /\ ~ok(f, all)} \cup
     When(\/ r.d = "bool"
          \/ /\ Got(r, "edge")
             /\ \A u, v \in V(r.g) :
                  IF IsEdge(r.g, u, v) THEN Entry(r.out.edge[u][v]) = EdgeBetween(r.g, T, u, v)
                  ELSE r.out.edge[u][v] \in {NONE, 0}, "edge")

BadRank(r) ==
  LET rs == TLCEval([i \in V(r.g) |-> SumStored(r.g[i])]) IN
  When(Got(r, "pr") /\ Len(r.out.pr) = Len(r.g) /\ IsRank(r.g, r.out.pr, r.dmp), "pr") \cup
  When(/\ Got(r, "iter") /\ Len(r.out.iter) = Len(r.its)
       /\ \A k \in DOMAIN r.its : NearRank(r.out.iter[k], RankIter(r.g, rs, RankStart(r.g), r.dmp, r.its[k]), (Len(r.g) + 20) * (r.its[k] + 1)), "iter") \cup
  When(Got(r, "dflt") /\ FirstBelow(r.g, rs, r.dmp, RankStart(r.g), r.out.dflt, 10000000, 0), "dflt")

(* c is a matrix of flags, one row per vertex: the cluster of a vertex *)
OneEach(m) == \A v \in DOMAIN m : Cardinality({x \in DOMAIN m[v] : m[v][x] = 1}) = 1
                                  /\ \A x \in DOMAIN m[v] : m[v][x] \in {NONE, 1}
Which(m) == [v \in DOMAIN m |-> CHOOSE x \in DOMAIN m[v] : m[v][x] = 1]
BadLouvain(r) ==
  UNION {IF Err(r, f) = "int" THEN {}          \* did not converge within the rounds allowed
         ELSE When(/\ Got(r, f) /\ Len(r.out[f]) = Len(r.g) /\ OneEach(r.out[f])
                   /\ Stable(r.g, Which(r.out[f]), f = "masked"), f) : f \in {"plain", "masked"}} \cup
  (IF Got(r, "plain") /\ OneEach(r.out.plain)
   THEN Differ(r, {"asg"}, [v \in V(r.g) |-> Which(r.out.plain)[v] - 1]) ELSE {})

Pairs(m) == {p \in (DOMAIN m) \X (DOMAIN m) : m[p[1]][p[2]] = 1}
OnlyOnes(m) == \A x, v \in DOMAIN m : m[x][v] \in {NONE, 1}
BadPeer(r) ==
  LET C0 == Pairs(r.init) IN
  When(/\ Got(r, "norm") /\ OnlyOnes(r.out.norm)
       /\ Pairs(r.out.norm) = PeerRun(r.g, C0, TRUE, r.iters), "norm") \cup
  When(/\ Got(r, "v2") /\ OnlyOnes(r.out.v2)
       /\ Pairs(r.out.v2) = PeerRun(r.g, C0, FALSE, r.iters), "v2") \cup
  (IF C0 # {<<v, v>> : v \in V(r.g)} THEN {}
   ELSE When(Got(r, "id") /\ OnlyOnes(r.out.id)
             /\ Pairs(r.out.id) = PeerRun(r.g, C0, TRUE, r.iters), "id"))

(* A stochastic matrix after every round, and each round is one step of the
   specified expansion and inflation (within the rounding of 1/MC). *)
BadMarkov(r) ==
  LET n == Len(r.g)
      has == {j \in 1..n : \E i \in 1..n : IsEdge(r.g, i, j)}
      sym == \A i, j \in 1..n : IsEdge(r.g, i, j) = IsEdge(r.g, j, i)
      Stoch(m) == LET sums == [j \in 1..n |-> Sum([i \in 1..n |-> Entry(m[i][j])])] IN
                  /\ \A i, j \in 1..n : Entry(m[i][j]) >= 0 /\ Entry(m[i][j]) <= MC
                  /\ \A j \in has : Abs(sums[j] - MC) <= n \/ (~sym /\ sums[j] = 0)
                  /\ \A j \in (1..n) \ has : sums[j] = 0
      Near(m, x) == \A i, j \in 1..n : Abs(Entry(m[i][j]) - x[i][j]) <= 100
  IN When(/\ Got(r, "m") /\ Stoch(r.out.m)
          /\ r.iters > (IF sym THEN 2 ELSE 1) \/ Near(r.out.m, MarkovRun(TLCEval(ColNorm(r.g)), r.e, r.r, r.iters)), "m") \cup
     (IF ~sym \/ ~Got(r, "m") \/ ~Stoch(r.out.m) THEN {}
      ELSE When(/\ Got(r, "next") /\ Stoch(r.out.next)
                /\ Near(r.out.next, MarkovStep(TLCEval([i \in 1..n |-> [j \in 1..n |-> Entry(r.out.m[i][j])]]), r.e, r.r)), "next"))

(* assignment readers: m[cluster][vertex] *)
BadAssign(r) ==
  LET m == r.m  nc == Len(m)  nv == Len(m[1])
      best(j) == LET st == {i \in 1..nc : m[i][j] # NONE} IN
                 IF st = {} THEN NONE
                 ELSE MinOf({i \in st : \A k \in st : m[i][j] >= m[k][j]}) - 1
      last(j) == LET st == {i \in 1..nc : m[i][j] # NONE} IN IF st = {} THEN NONE ELSE MaxOf(st) - 1
      lastr(i) == LET st == {j \in 1..nv : m[i][j] # NONE} IN IF st = {} THEN NONE ELSE MaxOf(st) - 1
  IN Differ(r, {"v1"}, [j \in 1..nv |-> best(j)]) \cup Differ(r, {"v2"}, [j \in 1..nv |-> last(j)]) \cup
     (IF nc # nv THEN {} ELSE Differ(r, {"lv"}, [i \in 1..nc |-> lastr(i)]))

(* ---- large graphs ---- *)
BadBbfs(r) ==
  LET into == TLCEval(InEdges(r.n, r.e))
      levs == {"lev", "levu", "levd", "lvm", "lvmu", "lv2", "lv2d", "B1", "B2", "levm", "batchm"}
      pars == {"par", "parw", "B3", "batch"}
      good == {f \in levs : Got(r, f) /\ IsLevels(r.n, r.e, into, r.src, r.out[f])}
  IN (levs \ good) \cup
     (IF good = {} THEN {}
      ELSE LET lev == r.out[CHOOSE f \in good : TRUE] IN
           {f \in pars : ~(Got(r, f) /\ IsParents(r.n, into, r.src, lev, r.out[f]))})
BadBsssp(r) ==
  LET into == TLCEval(InEdges(r.n, r.e)) IN
  {f \in {"sssp", "filt", "batch", "delta", "dist"} : ~(Got(r, f) /\ IsDist(r.n, r.e, into, r.src, r.out[f]))}
BadBtri(r) == Differ(r, {"tc", "lu", "l", "nt", "new", "B7"}, <<BigTriangles(r.n, r.e)>>)

(* ---- shapes: which calls must be refused ---- *)
BadShape(r) ==
  LET rows == Len(r.g)  cols == Len(r.g[1])  s == r.s
      refuse(f) ==
        CASE r.k = "shapebc" -> rows # cols \/ (f \notin {"all", "edge"} /\ s = 0)
          [] f \in {"apsp", "ecc", "louvain", "masked", "markov"} -> rows # cols
          [] OTHER -> rows # cols \/ rows # s
      fs == CASE r.k = "shapepath" -> {"lvm", "lv2", "batchm", "sssp", "filt", "batch", "apsp", "dist", "distm", "distr", "ecc"}
              [] r.k = "shapemisc" -> {"mst", "mis"}
              [] r.k = "shapebc" -> {"batch", "old", "alt", "altt", "altt2", "all", "edge"}
              [] r.k = "shapeclu" -> {"pr", "louvain", "masked", "peer", "peerr", "v2", "markov"}
  IN {f \in fs : refuse(f) # (Err(r, f) = "DimensionException")}

Bad(r) ==
  CASE r.k = "bfs" -> BadBfs(r)
    [] r.k = "bfsb" -> BadBfsb(r)
    [] r.k = "bfsr" -> BadBfsr(r)
    [] r.k = "sssp" -> BadSssp(r)
    [] r.k = "metrics" -> BadMetrics(r)
    [] r.k = "tri" -> BadTri(r)
    [] r.k = "truss" -> BadTruss(r)
    [] r.k = "mis" -> BadMis(r)
    [] r.k = "mst" -> BadMst(r)
    [] r.k = "flow" -> BadFlow(r)
    [] r.k = "bflow" -> BadBflow(r)
    [] r.k = "bc" -> BadBC(r)
    [] r.k = "rank" -> BadRank(r)
    [] r.k = "louvain" -> BadLouvain(r)
    [] r.k = "peer" -> BadPeer(r)
    [] r.k = "markov" -> BadMarkov(r)
    [] r.k = "assign" -> BadAssign(r)
    [] r.k = "bbfs" -> BadBbfs(r)
    [] r.k = "bsssp" -> BadBsssp(r)
    [] r.k = "btri" -> BadBtri(r)
    [] r.k \in {"shapepath", "shapemisc", "shapebc", "shapeclu"} -> BadShape(r)
    [] r.k \in UtilKinds -> BadUtil(r)
    [] r.k \in OperKinds -> BadOper(r)

Init == l = 1 /\ bad = 0
Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET b == TLCEval(Bad(Log[l])) IN
     IF b = {} THEN bad' = bad
     ELSE /\ PrintT(<<"REJECT", ToString(l), ToJson(b)>>)
          /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
