------------------------------- MODULE MCGraphs -------------------------------
(***************************************************************************)
(* All graphs of one size and kind, built cell by cell.  Every complete    *)
(* graph is printed, to be given to the library's algorithms, and the laws *)
(* relate the definitions of Algos to independent ones.                    *)
(***************************************************************************)
EXTENDS Algos, Json

CONSTANTS N, Und, Loops, W            \* W: the weights, NONE included
VARIABLES g, k
vars == <<g, k>>

Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
CellSet == {p \in (1..N) \X (1..N) : (Loops \/ p[1] # p[2]) /\ (~Und \/ p[1] <= p[2])}
RECURSIVE Order(_)
Order(X) == IF X = {} THEN <<>>
            ELSE LET m == CHOOSE p \in X : \A q \in X : p = q \/ Before(p, q) IN <<m>> \o Order(X \ {m})
Cells == Order(CellSet)
Full == k > Len(Cells)

Init == g = [i \in 1..N |-> [j \in 1..N |-> NONE]] /\ k = 1
Next ==
  /\ ~Full
  /\ LET i == Cells[k][1]  j == Cells[k][2] IN
     \E w \in W :
       /\ g' = IF Und THEN [[g EXCEPT ![i][j] = w] EXCEPT ![j][i] = w] ELSE [g EXCEPT ![i][j] = w]
       /\ k' = k + 1
       /\ k = Len(Cells) => PrintT(<<"G", ToJson([g |-> g'])>>)
Spec == Init /\ [][Next]_vars

(* ---- hops: ends of the walks of exactly m edges ---- *)
RECURSIVE WalkEnds(_, _)
WalkEnds(R, m) == IF m = 0 THEN R
                  ELSE LET U == WalkEnds(R, m - 1) IN {v \in V(g) : \E u \in U : IsEdge(g, u, v)}
LevelLaw == Full => \A R \in SUBSET V(g) \ {{}} :
  LET lev == Levels(g, R)  par == Parents(g, R) IN
  \A v \in V(g) :
    LET ms == {m \in 0..(N - 1) : v \in WalkEnds(R, m)} IN
    /\ lev[v] = IF ms = {} THEN NONE ELSE 1 + MinOf(ms)
    /\ (par[v] # NONE) <=> (ms # {})
    /\ par[v] # NONE /\ v \notin R => IsEdge(g, par[v] + 1, v) /\ lev[par[v] + 1] + 1 = lev[v]

(* ---- distances: Floyd and Warshall's recurrence ---- *)
Plus2(x, y) == IF x = NONE \/ y = NONE THEN NONE ELSE x + y
Least(x, y) == IF x = NONE THEN y ELSE IF y = NONE THEN x ELSE IF x < y THEN x ELSE y
RECURSIVE FW(_, _)
FW(D, m) == IF m > N THEN D
            ELSE FW(TLCEval([i \in V(g) |-> [j \in V(g) |-> Least(D[i][j], Plus2(D[i][m], D[m][j]))]]), m + 1)
DistLaw == Full =>
  LET D == FW([i \in V(g) |-> [j \in V(g) |-> IF i = j THEN Least(0, g[i][j]) ELSE g[i][j]]], 1)
  IN \A s \in V(g) :
       LET neg == \E v \in V(g) : D[s][v] # NONE /\ D[v][v] < 0 IN
       /\ NegCycle(g, s) <=> neg
       /\ ~neg => Dist(g, s) = D[s]

(* ---- triangles: closed walks of length three; trusses: unions ---- *)
TriLaw == Full /\ Und /\ Loopless(g) =>
  6 * Triangles(g) = Cardinality({t \in V(g) \X V(g) \X V(g) :
                        IsEdge(g, t[1], t[2]) /\ IsEdge(g, t[2], t[3]) /\ IsEdge(g, t[3], t[1])})
TrussLaw == Full /\ Und /\ Loopless(g) =>
  \A q \in 3..5 :
    Truss(g, q) = UNION {E \in SUBSET UEdges(g) : \A p \in E : Support(E, p, V(g)) >= q - 2}

(* ---- spanning trees: the lightest among all of them ---- *)
RECURSIVE Grow(_, _)
Grow(E, X) == LET Y == X \cup {v \in V(g) : \E u \in X : Adj(E, u, v)} IN IF Y = X THEN X ELSE Grow(E, Y)
MstLaw == Full /\ Und =>
  LET trees == {E \in SUBSET UEdges(g) : Cardinality(E) = N - 1 /\ Grow(E, {1}) = V(g)}
      weight(E) == SumOver(E, [p \in E |-> g[p[1]][p[2]]])
  IN MSTWeight(g) = IF trees = {} THEN NONE ELSE MinOf({weight(E) : E \in trees})

(* ---- flows: the largest among all integral flows ---- *)
CutLaw == Full /\ ~Und /\ Loopless(g) =>
  LET E == {p \in V(g) \X V(g) : IsEdge(g, p[1], p[2])}
      top == MaxOf({0} \cup {g[p[1]][p[2]] : p \in E})
      flows == {f \in [E -> 0..top] :
                  /\ \A p \in E : f[p] <= g[p[1]][p[2]]
                  /\ \A v \in V(g) \ {1, N} :
                       SumOver({p \in E : p[2] = v}, f) = SumOver({p \in E : p[1] = v}, f)}
      value(f) == SumOver({p \in E : p[2] = N}, f) - SumOver({p \in E : p[1] = N}, f)
  IN N > 1 => MinCut(g, 1, N) = MaxOf({value(f) : f \in flows})

(* ---- betweenness: the shortest paths themselves ---- *)
Simple == UNION {{p \in [1..m -> V(g)] : /\ \A a, b \in 1..m : a # b => p[a] # p[b]
                                         /\ \A a \in 1..(m - 1) : IsEdge(g, p[a], p[a + 1])} : m \in 1..N}
BetLaw == Full /\ Loopless(g) =>
  LET T == PathTables(g)
      shortest(s, t) == LET P == {p \in Simple : p[1] = s /\ p[Len(p)] = t} IN
                        {p \in P : \A q \in P : Len(p) <= Len(q)}
      S == [x \in V(g) \X V(g) |-> shortest(x[1], x[2])]
      thru(P, v) == Cardinality({p \in P : v \in Range(p)})
      along(P, u, v) == Cardinality({p \in P : \E a \in 1..(Len(p) - 1) : p[a] = u /\ p[a + 1] = v})
  IN /\ \A v \in V(g) :
          LET ps == {x \in V(g) \X V(g) : x[1] # v /\ x[2] # v /\ x[1] # x[2] /\ S[x] # {}} IN
          Between(g, T, V(g), v) = SumOver(ps, [x \in ps |-> (SC * thru(S[x], v)) \div Cardinality(S[x])])
     /\ \A u, v \in V(g) : IsEdge(g, u, v) =>
          LET ps == {x \in V(g) \X V(g) : x[1] # x[2] /\ S[x] # {}} IN
          EdgeBetween(g, T, u, v) = SumOver(ps, [x \in ps |-> along(S[x], u, v)])

(* ---- independent sets: maximal means no proper superset is independent ---- *)
MisLaw == Full /\ Und /\ Loopless(g) =>
  \A X \in SUBSET V(g) : Independent(g, X) =>
    (MaximalIn(g, X) <=> ~\E v \in V(g) \ X : Independent(g, X \cup {v}))

(* ---- Louvain: the gain is the change of modularity ---- *)
Modularity(c, kk, K) == SumOver({p \in V(g) \X V(g) : c[p[1]] = c[p[2]]},
                          [p \in V(g) \X V(g) |-> K * (IF IsEdge(g, p[1], p[2]) THEN g[p[1]][p[2]] ELSE 0) - kk[p[1]] * kk[p[2]]])
GainLaw == Full /\ Und =>
  LET kk == Deg(g)  K == Sum(kk) IN
  \A c \in [V(g) -> V(g)] : \A i \in V(g), x \in {c[j] : j \in V(g)} :
    Modularity([c EXCEPT ![i] = x], kk, K) - Modularity(c, kk, K)
      = Gain(g, kk, K, c, i, x) - Gain(g, kk, K, c, i, c[i])
=============================================================================
