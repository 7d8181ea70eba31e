"""The algorithms, operators and utilities: calls are made on every graph that
TLC enumerates from MCGraphs and on random ones, in both builds of the library;
TLC judges the recorded answers with AlgTrace."""
import json, os, random, re, subprocess
import gbv
from gbv import NONE, JOBS, PLATFORMS

# ------------------------------------------------------------------ graphs
def empty(n): return [[NONE] * n for _ in range(n)]
def rgraph(rnd, n, und=False, loops=False, W=(1,), dens=None):
    dens = rnd.choice([0.15, 0.3, 0.5, 0.8]) if dens is None else dens
    g = empty(n)
    for i in range(n):
        for j in range(n):
            if (i == j and not loops) or (und and j < i): continue
            if rnd.random() < dens:
                g[i][j] = rnd.choice(W)
                if und: g[j][i] = g[i][j]
    if n > 2 and rnd.random() < 0.3:                 # an isolated vertex, a source or a sink
        v, what = rnd.randrange(n), rnd.choice("isk")
        for u in range(n):
            if und or what in "ik": g[v][u] = NONE
            if und or what in "is": g[u][v] = NONE
    return g
def structured_as(rnd, n, what): return structured(rnd, n, False, [1], what)
def structured(rnd, n, und, W, what=None):
    """paths, cycles, stars, cliques, bipartite, renumbered at random"""
    p = list(range(n)); rnd.shuffle(p)
    g = empty(n)
    def e(a, b):
        if a != b:
            g[p[a]][p[b]] = rnd.choice(W)
            if und: g[p[b]][p[a]] = g[p[a]][p[b]]
    what = what or rnd.choice(["path", "cycle", "star", "clique", "bip", "two", "grid"])
    if what in ("path", "cycle"):
        for i in range(n - 1): e(i, i + 1)
        if what == "cycle": e(n - 1, 0)
    elif what == "star":
        for i in range(1, n):
            e(0, i)
            if rnd.random() < 0.5: e(i, 0)
    elif what == "clique":
        for i in range(n):
            for j in range(n): e(i, j)
    elif what == "bip":
        h = max(1, n // 2)
        for i in range(h):
            for j in range(h, n): e(i, j)
    elif what == "two":
        h = max(1, n // 2)
        for i in range(n):
            for j in range(n):
                if (i < h) == (j < h): e(i, j)
        if n > 1: e(h - 1, min(h, n - 1))
    else:
        w = 2 if n < 9 else 3
        for i in range(n):
            if (i + 1) % w: e(i, min(i + 1, n - 1))
            if i + w < n: e(i, i + w)
    return g
def anyg(rnd, n, und, loops, W):
    return structured(rnd, n, und, W) if rnd.random() < 0.3 else rgraph(rnd, n, und, loops, W)
def size(rnd, lo, hi): return rnd.choice([rnd.randint(lo, hi), rnd.randint(lo, min(hi, 5))])
def reweigh(rnd, g, W, und):
    n = len(g); h = empty(n)
    for i in range(n):
        for j in range(n):
            if g[i][j] != NONE:
                h[i][j] = h[j][i] if und and j < i else rnd.choice(W)
    return h
def connected(g):
    n = len(g); seen = {0}; todo = [0]
    while todo:
        u = todo.pop()
        for v in range(n):
            if v not in seen and (g[u][v] != NONE): seen.add(v); todo.append(v)
    return len(seen) == n
def some(rnd, n, lo=1):
    xs = rnd.sample(range(n), rnd.randint(lo, n)); return xs

# ---------------------------------------------- calls for one graph per kind
WB = {"bool": [1], "u8": [1, 2, 255], "f64": [1, 3, -2], "mix": [1], "i32": [1, 5, -3]}
def c_bfs(rnd, g):
    n = len(g); out = []
    for s in range(n):
        d = rnd.choice(list(WB))
        out.append(dict(k="bfs", g=reweigh(rnd, g, WB[d], False), src=s, d=d))
    d = rnd.choice(list(WB))
    out.append(dict(k="bfsb", g=reweigh(rnd, g, WB[d], False), roots=[rnd.randrange(n) for _ in range(rnd.randint(1, 4))], d=d))
    d = rnd.choice(list(WB))
    out.append(dict(k="bfsr", g=reweigh(rnd, g, WB[d], False), roots=some(rnd, n), d=d))
    return out
def r_bfs(rnd):
    n = rnd.choice([10, 14, 20, 40]) if rnd.random() < 0.15 else size(rnd, 1, 9)
    g = anyg(rnd, n, rnd.random() < 0.3, rnd.random() < 0.5, [1])
    if n > 10:
        p = list(range(n)); rnd.shuffle(p)
        if rnd.random() < 0.5: g = structured(rnd, n, False, [1])
    return rnd.sample(c_bfs(rnd, g), min(4, n + 2))
def c_sssp(rnd, g):
    n = len(g); neg = any(x != NONE and x < 0 for r in g for x in r)
    d = rnd.choice(["f64", "i16", "i32"])
    return [dict(k="sssp", g=g, src=rnd.randrange(n), srcs=[rnd.randrange(n) for _ in range(rnd.randint(1, 3))],
                 deltas=[] if neg else rnd.sample([1, 2, 3, 5, 8, 50], 3), d=d)]
def r_sssp(rnd):
    W = rnd.choice([[0, 1, 2, 3], [1, 2, 5, 9], [0, 1, 7, 30], [-1, 0, 2, 4, 6], [-3, 1, 3, 5, 8], [-1, 1]])
    n = size(rnd, 1, 9)
    g = anyg(rnd, n, False, rnd.random() < 0.3, W)
    if W[0] < 0 and rnd.random() < 0.6:                # potentials: negative edges, no negative cycle
        p = [rnd.randint(0, 6) for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if g[i][j] != NONE: g[i][j] = abs(g[i][j]) + p[j] - p[i]
    return c_sssp(rnd, g)
def c_metrics(rnd, g):
    n = len(g)
    return [dict(k="metrics", g=g, src=rnd.choice(list(range(n)) * 3 + [n, n + 1]), d=rnd.choice(["f64", "i32"]))]
def r_metrics(rnd):
    n = rnd.choice([12, 16, 24]) if rnd.random() < 0.03 else size(rnd, 1, 9)
    return c_metrics(rnd, anyg(rnd, n, rnd.random() < 0.4, rnd.random() < 0.3, rnd.choice([[1], [1, 2, 5], [0, 1, 3]])))
def c_tri(rnd, g): return [dict(k="tri", g=g, d=rnd.choice(["f64", "u64", "i32"]))]
def r_tri(rnd): return c_tri(rnd, anyg(rnd, size(rnd, 1, 10), True, False, [1]))
def c_truss(rnd, g):
    n = len(g)
    es = [[i, j] if rnd.random() < 0.5 else [j, i] for i in range(n) for j in range(i + 1, n) if g[i][j] != NONE]
    rnd.shuffle(es)
    return [dict(k="truss", g=g, kk=k, edges=es, d=rnd.choice(["f64", "i32"])) for k in rnd.sample([3, 4, 5, 6] if n > 5 else [3, 4, 5], 2)]
def r_truss(rnd):
    if rnd.random() < 0.03:                          # a dense core inside a sparse graph, and a high k
        n = rnd.choice([12, 16, 20]); g = rgraph(rnd, n, True, False, [1], 0.25)
        core = rnd.sample(range(n), rnd.randint(5, n // 2 + 2))
        for a in core:
            for b in core:
                if a < b and rnd.random() < 0.93: g[a][b] = g[b][a] = 1
        return [dict(c, kk=rnd.choice([3, 4, 5, 6, 7, 8])) for c in c_truss(rnd, g)]
    n = size(rnd, 3, 9)
    return c_truss(rnd, rgraph(rnd, n, True, False, [1], rnd.choice([0.4, 0.6, 0.8])) if rnd.random() < 0.8 else structured(rnd, n, True, [1]))
def c_mis(rnd, g): return [dict(k="mis", g=g, seeds=[rnd.randrange(100000) for _ in range(4)], d=rnd.choice(["f64", "bool", "i32"]))]
def r_mis(rnd): return c_mis(rnd, anyg(rnd, rnd.choice([30, 50, 70]) if rnd.random() < 0.02 else size(rnd, 1, 14), True, False, [1]))
def c_mst(rnd, g): return [dict(k="mst", g=g, d=rnd.choice(["f64", "i32"]))] if connected(g) else []
def r_mst(rnd):
    while True:
        g = anyg(rnd, rnd.choice([14, 20, 30]) if rnd.random() < 0.03 else size(rnd, 1, 9), True, rnd.random() < 0.1, rnd.choice([[1], [1, 2, 3], [-3, -1, 0, 2, 5], [0, 1], [16777216, 16777217, 16777219, 16777221]]))
        if connected(g): return c_mst(rnd, g)
def c_flow(rnd, g):
    n = len(g)
    if n < 2: return []
    s, t = rnd.sample(range(n), 2)
    return [dict(k="flow", g=g, src=s, sink=t, d=rnd.choice(["f64", "i32"]))]
def r_flow(rnd):
    n = size(rnd, 2, 8)
    return c_flow(rnd, anyg(rnd, n, rnd.random() < 0.2, False, rnd.choice([[1], [1, 2, 3], [1, 4, 10, 20], [1, 100], [1, 16777217, 33554435]])))
def maxflow(g, s, t):
    """A flow and a cut, as a certificate for AlgTrace, which checks it."""
    n = len(g); f = [[0] * n for _ in range(n)]
    cap = lambda u, v: (g[u][v] if g[u][v] != NONE else 0) - f[u][v] + f[v][u]
    while True:
        par = {s: None}; todo = [s]
        for u in todo:
            for v in range(n):
                if v not in par and cap(u, v) > 0: par[v] = u; todo.append(v)
        if t not in par: return f, sorted(par)
        path, v = [], t
        while par[v] is not None: path.append((par[v], v)); v = par[v]
        x = min(cap(u, v) for u, v in path)
        for u, v in path:
            back = min(x, f[v][u]); f[v][u] -= back; f[u][v] += x - back
def b_flow(rnd, full):
    out = []
    for k in range(60 if full else 24):
        n = rnd.choice([10, 16, 24, 32])
        g = anyg(rnd, n, rnd.random() < 0.2, False, rnd.choice([[1], [1, 2, 3], [1, 4, 10, 20], [7, 100, 1000]])) if k % 3 else empty(n)
        if not k % 3:                                # layers
            w = rnd.choice([2, 3, 4])
            for i in range(n):
                for j in range(n):
                    if i != j and i // w + 1 >= j // w and rnd.random() < 0.5: g[i][j] = rnd.choice([1, 2, 3, 8])
        s, t = (0, n - 1) if rnd.random() < 0.5 else rnd.sample(range(n), 2)
        f, cut = maxflow(g, s, t)
        out.append(dict(k="bflow", g=g, src=s, sink=t, f=f, cut=cut, d=rnd.choice(["f64", "i32"])))
    return out
def c_bc(rnd, g):
    n = len(g)
    return [dict(k="bc", g=g, srcs=some(rnd, n), d=rnd.choice(["f64", "f64", "f32", "i32"] + (["u8", "bool"] if n < 9 else [])))]
def r_bc(rnd):
    if rnd.random() < 0.04:                          # long shortest paths
        n = rnd.randint(11, 15); return c_bc(rnd, reweigh(rnd, structured_as(rnd, n, "path"), [1], False))
    return r_bc1(rnd)
def r_bc1(rnd): return c_bc(rnd, anyg(rnd, rnd.choice([10, 12, 14]) if rnd.random() < 0.03 else size(rnd, 1, 8), rnd.random() < 0.5, False, [1]))
def c_rank(rnd, g): return [dict(k="rank", g=g, dmp=rnd.choice([10, 50, 85, 95]), its=rnd.sample([0, 1, 2, 3, 4, 5, 7], 2), d=rnd.choice(["f64", "i32", "u8"]))]
def r_rank(rnd): return c_rank(rnd, anyg(rnd, rnd.choice([14, 20, 30]) if rnd.random() < 0.03 else size(rnd, 1, 9), rnd.random() < 0.3, rnd.random() < 0.3, rnd.choice([[1], [1, 2, 5], [3, 7]])))
def c_louvain(rnd, g): return [dict(k="louvain", g=g, seed=rnd.randrange(10000), d=rnd.choice(["f64", "i32"]))]
def c_markov(rnd, g):
    e, r = rnd.choice([(2, 2), (2, 2), (2, 3), (3, 2), (3, 3), (1, 2), (2, 1)])
    return [dict(k="markov", g=g, iters=rnd.choice([1, 2, 5, 20]), e=e, r=r)]
def c_peer(rnd, g):
    n = len(g); h = empty(n)
    for i in range(n):                               # row sums are powers of two, so that votes are exact
        js = [j for j in range(n) if g[i][j] != NONE]
        if not js: continue
        total = rnd.choice([x for x in (1, 2, 4, 8, 16) if x >= len(js)] or [0])
        if not total: return []
        ws = [1] * len(js)
        for _ in range(total - len(js)): ws[rnd.randrange(len(js))] += 1
        for j, x in zip(js, ws): h[i][j] = x
    init = empty(n)
    ident = rnd.random() < 0.6
    for v in range(n): init[v if ident else rnd.randrange(n)][v] = 1
    return [dict(k="peer", g=h, init=init, iters=rnd.choice([1, 2, 3, 30]), d=rnd.choice(["f64", "i32"]))]
def c_clu(rnd, g, und=True):
    return c_louvain(rnd, g) + (c_peer(rnd, g) if rnd.random() < 0.7 else []) + c_markov(rnd, g)
def r_clu(rnd):
    k = rnd.random()
    if k < 0.4: return c_louvain(rnd, anyg(rnd, rnd.choice([12, 16, 20]) if rnd.random() < 0.05 else size(rnd, 2, 9), True, rnd.random() < 0.3, rnd.choice([[1], [1, 2, 5]])))
    if k < 0.75: return c_peer(rnd, anyg(rnd, rnd.choice([10, 14, 18]) if rnd.random() < 0.05 else size(rnd, 1, 8), rnd.random() < 0.3, rnd.random() < 0.5, [1]))
    if k < 0.9: return c_markov(rnd, rgraph(rnd, size(rnd, 1, 7), rnd.random() < 0.5, rnd.random() < 0.7, rnd.choice([[1], [1, 2, 5]])))
    a, b = rnd.randint(1, 5), rnd.randint(1, 5)
    if rnd.random() < 0.3: b = a
    return [dict(k="assign", m=[[rnd.choice([NONE, NONE, 1, 2, 3, 4]) for _ in range(b)] for _ in range(a)])]

# ------------------------------------------------- large graphs, odd shapes
def edges(rnd, n, m, W, und=False):
    """a renumbered graph of n vertices with about m edges, often long and thin"""
    p = list(range(n)); rnd.shuffle(p)
    es = {}
    what = rnd.choice(["path", "path", "rand", "band", "tree"])
    def put(a, b):
        if a != b:
            w = rnd.choice(W); es[p[a], p[b]] = w
            if und: es[p[b], p[a]] = w
    if what in ("path", "band"):
        for i in range(n - 1): put(i, i + 1)
    if what == "tree":
        for i in range(1, n): put(rnd.randrange(max(0, i - 40), i), i)
    for _ in range(m if what != "path" else m // 20):
        if what == "rand": put(rnd.randrange(n), rnd.randrange(n))
        else:
            a = rnd.randrange(n); put(a, max(0, min(n - 1, a + rnd.randint(-40, 1))))   # mostly backwards: stays long
    e = sorted((a, b, w) for (a, b), w in es.items()); rnd.shuffle(e)
    return [list(x) for x in e], p
def b_bfs(rnd, full):
    out = []
    for n, m in [(300, 60), (270, 300), (150, 400), (66, 200)] * (2 if full else 1):
        d = rnd.choice(list(WB)); e, p = edges(rnd, n, m, WB[d])
        out.append(dict(k="bbfs", n=n, e=e, src=p[0] if rnd.random() < 0.8 else rnd.randrange(n), d=d))
    e, p = edges_path(rnd, 290)
    out.append(dict(k="bbfs", n=290, e=e, src=p[0], d="i32"))
    return out
def edges_path(rnd, n, W=(1,)):
    p = list(range(n)); rnd.shuffle(p)
    e = [[p[i], p[i + 1], rnd.choice(W)] for i in range(n - 1)]; rnd.shuffle(e)
    return e, p
def b_sssp(rnd, full):
    out = []
    for n, m in [(60, 150), (100, 300), (40, 30)] * (2 if full else 1):
        d = rnd.choice(["f64", "i32", "i32i64", "f64f32"])
        W = [1, 2, 5, 9] if d == "f64f32" else rnd.choice([[1, 2, 5, 9], [1, 7, 40], [1000, 70001, 200003]])
        e, p = edges(rnd, n, m, W)
        out.append(dict(k="bsssp", n=n, e=e, src=p[0], delta=rnd.choice([max(W) // 3 + 1, max(W), 3 * max(W)]), d=d))
    e, p = edges_path(rnd, 130, [3, 1000003])
    out.append(dict(k="bsssp", n=130, e=e, src=p[0], delta=500000, d="i32"))
    return out
def b_tri(rnd, full):
    out = []
    for n, where in [(140, "last"), (140, "first"), (270, "last"), (264, "first"), (70, "any"), (140, "any")] * (2 if full else 1):
        es = set()
        p = list(range(n)); rnd.shuffle(p)
        if where != "any":                                         # the edge is between the largest or the smallest numbers
            p.sort(reverse=where == "last")
        for i in range(2, n): es |= {(0, i), (1, i)}               # one edge in very many triangles
        es.add((0, 1))
        for _ in range(n): a, b = sorted(rnd.sample(range(n), 2)); es.add((a, b))
        e = [[p[a], p[b], 1] for a, b in es] + [[p[b], p[a], 1] for a, b in es]; rnd.shuffle(e)
        out += [dict(k="btri", n=n, e=e, d=d) for d in ("f64", "u64", "i32")]
    n = 24                                                         # a clique
    out.append(dict(k="btri", n=n, e=[[a, b, 1] for a in range(n) for b in range(n) if a != b], d="i32"))
    return out
def b_bc(rnd, full):
    """chains of diamonds: 2^k shortest paths"""
    out = []
    for k in ((8,) if not full else (8, 9, 10)):
        n = 3 * k + 1; p = list(range(n)); rnd.shuffle(p); g = empty(n)
        for i in range(k):
            a = 3 * i
            for b in (a + 1, a + 2): g[p[a]][p[b]] = 1; g[p[b]][p[a + 3]] = 1
        out.append(dict(k="bc", g=g, srcs=[p[0], p[3]], d=rnd.choice(["f64", "i32"])))
    return out
def shapes(kind):
    def f(rnd, full):
        out = []
        for r in range(1, 5):
            for c in range(1, 5):
                for s in (range(1, 5) if kind != "shapebc" else (0, 1)):
                    g = [[rnd.choice([NONE, 1]) if i != j else NONE for j in range(c)] for i in range(r)]
                    for i in range(min(r, c)):
                        for j in range(min(r, c)): g[j][i] = g[i][j]
                    out.append(dict(k=kind, g=g, s=s))
        return out
    return f
def both(*fs): return lambda rnd, full: [c for f in fs for c in f(rnd, full)]

# ---------------------------------------------------------------- utilities
def r_util(rnd):
    k = rnd.choice(["diag", "ident", "split", "split", "norm", "norm", "range"])
    n = rnd.randint(1, 7); m = rnd.choice([n, rnd.randint(1, 7)])
    W = [NONE, NONE, 0, 1, -2, 5]
    if k == "diag": return [dict(k=k, v=[rnd.choice(W) for _ in range(n)], d=rnd.choice(["f64", "i32"]))]
    if k == "ident": return [dict(k=k, n=n, s=rnd.choice([1, 0, -3, 7]), d=rnd.choice(["f64", "i32"]))]
    if k == "split": return [dict(k=k, g=[[rnd.choice(W) for _ in range(m)] for _ in range(n)], d=rnd.choice(["f64", "i32"]))]
    if k == "norm":
        return [dict(k=k, g=[[rnd.choice([NONE, NONE, 1, 2, 3, 10]) for _ in range(m)] for _ in range(n)])]
    b = rnd.randint(0, n); e = rnd.randint(b, n)
    return [dict(k="range", b=b, e=e, n=n)]
def all_util(rnd):
    out = []
    import itertools
    for n in (1, 2, 3):
        for v in itertools.product([NONE, 0, 3, -2], repeat=n): out.append(dict(k="diag", v=list(v), d=rnd.choice(["f64", "i32"])))
    for n in range(1, 9):
        for s in (0, 1, -4): out += [dict(k="ident", n=n, s=s, d=d) for d in ("f64", "i32")]
        for b in range(n + 1):
            for e in range(b, n + 1): out.append(dict(k="range", b=b, e=e, n=n))
    for r, c in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)):
        for v in itertools.product([NONE, 2] if r * c > 4 else [NONE, 0, 2], repeat=r * c):
            out.append(dict(k="split", g=[list(v[i * c:(i + 1) * c]) for i in range(r)], d=rnd.choice(["f64", "i32"])))
        for v in itertools.product([NONE, 1] if r * c > 4 else [NONE, 1, 3], repeat=r * c):
            out.append(dict(k="norm", g=[list(v[i * c:(i + 1) * c]) for i in range(r)]))
    return out

# ---------------------------------------------------------------- operators
UN = ["Identity", "Abs", "AdditiveInverse", "LogicalNot", "MultiplicativeInverse", "BitwiseNot"]
CMP = ["LogicalOr", "LogicalAnd", "LogicalXor", "LogicalXnor", "Equal", "NotEqual", "GreaterThan", "LessThan",
       "GreaterEqual", "LessEqual", "First", "Second", "Min", "Max"]
ARI = ["Plus", "Minus", "Times", "Div"]
BIT = ["BitwiseOr", "BitwiseAnd", "BitwiseXor", "BitwiseXnor"]
MONS = ["PlusMonoid", "TimesMonoid", "LogicalOrMonoid", "LogicalAndMonoid", "LogicalXorMonoid", "LogicalXnorMonoid", "MinMonoid", "MaxMonoid"]
SEMIS = ["ArithmeticSemiring", "MinPlusSemiring", "MaxPlusSemiring", "MinTimesSemiring", "MaxTimesSemiring", "MinMaxSemiring", "MaxMinSemiring",
         "PlusMinSemiring", "LogicalSemiring", "AndOrSemiring", "XorAndSemiring", "XnorOrSemiring",
         "MinFirstSemiring", "MinSecondSemiring", "MaxFirstSemiring", "MaxSecondSemiring"]
DOM = {"bool": [0, 1], "i8": list(range(-128, 128)), "u8": list(range(256)),
       "i16": [-300, -129, -128, -7, -2, -1, 0, 1, 2, 3, 127, 128, 181, 255, 256, 300],
       "i32": [-4000, -129, -2, -1, 0, 1, 2, 3, 127, 255, 256, 4000],
       "f64": [-64, -40, -24, -16, -8, -4, 0, 4, 8, 16, 24, 40, 64]}
EDGE = {"bool": [0, 1], "i8": [-128, -127, -65, -2, -1, 0, 1, 2, 3, 64, 126, 127], "u8": [0, 1, 2, 3, 127, 128, 129, 254, 255]}
ITYPES = ["i16", "u16", "i32", "u32", "i64", "u64"]
def lims(d):
    if d in ("f32", "f64"): return [[-2, 0], [-1, 0], [0, -1], [0, 0], [0, 1], [0, 7], [1, 0], [2, 0]]
    low = [] if d[0] == "u" else [[-1, 0], [-1, 1], [-1, 5], [0, -1], [0, -3]]
    return low + [[0, 0], [0, 1], [0, 2], [0, 9], [1, -5], [1, -1], [1, 0]]
TRIPLES = [x.split() for x in ("i32 f64 f64", "f64 i32 bool", "u8 i16 i32", "i8 i32 bool", "bool i32 i32", "f64 f64 i32", "i32 f64 bool",
           "i32 i8 f64", "i16 u8 i8", "i32 i32 u8", "bool f64 f64", "f64 bool f64")]
PAIRS = [x.split() for x in ("i32 f64", "f64 i32", "f64 bool", "i8 i32", "u8 i16", "i32 i8", "bool i32", "i16 bool")]
MDOM = {"bool": [0, 1], "i8": [-128, -5, -1, 0, 1, 3, 127], "u8": [0, 1, 2, 200, 255], "i16": [-300, -2, -1, 0, 1, 2, 7, 256, 300],
        "i32": [-300, -256, -2, -1, 0, 1, 2, 3, 7, 255, 256, 300], "f64": [-64, -40, -24, -16, -8, -4, 0, 4, 8, 16, 24, 40, 48, 64]}
def six(d, x): return x if d == "f64" else 16 * x
def mixed():
    out = []
    def pure(f, d, t, a):                            # second operands for which the result is exact and inside the type t
        r = []
        for b in MDOM[d[1]]:
            x, y = six(d[0], a), six(d[1], b)
            ints = d[0] != "f64" and d[1] != "f64"
            if f == "Div" and (y == 0 or (not ints and (16 * x) % y)): continue
            if f == "Times" and (x * y) % 16: continue
            if f == "Power":
                if x % 16 or y % 16 or not 0 <= y <= 48 or abs(x) > 64: continue
                z = (x // 16) ** (y // 16)
                if abs(z) > 120 or (t == "u8" and z < 0): continue
            r.append(b)
        return r
    for d in TRIPLES:
        for a in MDOM[d[0]]:
            for f in CMP + ARI + ["Power"] + BIT:
                if f in BIT and "f64" in d: continue
                for de in (0, 1):
                    t = ("bool" if f in CMP[4:10] else d[1] if f == "Second" else d[0]) if de else d[2]
                    # a result that is a fraction or a double is not put into a narrow integer
                    if "f64" in d[:2] and t in ("i8", "u8", "i16"): continue
                    if de and f in BIT and "bool" in (d[0], d[1]) : continue
                    bs = pure(f, d, t, a)
                    if bs: out.append(dict(k="mbin", f=f, d=d, a=a, bs=bs, **{"def": de}))
        for f in SEMIS:
            lg = f in SEMIS[8:12]
            cs = [x for x in MDOM[d[2]] if x in (0, 16 if d[2] == "f64" else 1)] if lg else MDOM[d[2]]
            m = {"Arithmetic": "Times", "MinPlus": "Plus", "MaxPlus": "Plus", "MinTimes": "Times", "MaxTimes": "Times"}.get(f[:-8])
            for i, a in enumerate(MDOM[d[0]]):
                w = cs[i % len(cs)]
                bs = pure(m or "Plus", d, d[2], a)
                out.append(dict(k="msemi", f=f, d=d, a=a, bs=bs, w=w, cs=cs))
    for d in PAIRS:
        for f in UN:
            xs = MDOM[d[0]]
            if f == "BitwiseNot" and ("f64" in d or d[0] == "bool"): continue
            if f == "MultiplicativeInverse":
                xs = [x for x in xs if x != 0 and ("f64" not in d or 256 % abs(six(d[0], x)) == 0)]
            out.append(dict(k="mun", f=f, d=d, xs=xs))
    return out
def all_oper(rnd, full):
    out = mixed()
    for d, xs in DOM.items():
        for f in UN:
            ys = xs
            if f == "BitwiseNot" and d in ("f64", "bool"): continue
            if f == "MultiplicativeInverse":
                ys = [x for x in xs if x != 0 and (d != "f64" or 256 % abs(x) == 0)]
            if f == "Abs" and d == "i8": ys = xs[1:]       # no value of the type for -128
            out.append(dict(k="un", f=f, d=d, xs=ys))
        small = d in ("bool", "i8", "u8")
        as_ = xs if full or not small else EDGE[d] + (rnd.sample(xs, 10) if len(xs) > 10 else [])
        for f in CMP + ARI + BIT + ["Power"]:
            for a in as_:
                ys = xs
                if f in BIT and d in ("f64", "bool"): continue      # integer domains
                if f == "Div": ys = [y for y in xs if y != 0 and (d != "f64" or (a * 16) % y == 0)]
                if f == "Times" and d == "f64": ys = [y for y in xs if (a * y) % 16 == 0]
                if f == "Power":
                    if d == "bool" or (d == "f64" and a % 16): continue
                    ys = [y for y in ([0, 16, 32, 48] if d == "f64" else [0, 1, 2, 3]) if abs(a) ** (y // 16 if d == "f64" else y) <= (127 if d == "i8" else 255 if d == "u8" else 10000)]
                if d == "bool" and f == "Div": ys = [1]
                if ys: out.append(dict(k="bin", f=f, d=d, a=a, bs=ys))
        for f in MONS:
            lg = f.startswith("Logical")
            if d not in ("bool", "i8", "u8") and f in ("MinMonoid", "MaxMonoid"): continue
            if lg and d == "f64": continue
            zs = [x for x in xs if x in (0, 1)] if lg else xs
            for a in (zs if lg else as_):
                ys = [y for y in zs if d != "f64" or f != "TimesMonoid" or (a * y) % 16 == 0]
                if d == "f64" and f == "TimesMonoid": continue      # identity 1.0 is 16 there
                out.append(dict(k="mon", f=f, d=d, a=a, xs=ys))
        for f in SEMIS:
            lg = f in SEMIS[8:12]
            if d in ("i16", "i32", "f64") and (f.startswith("Min") or f.startswith("Max")): continue
            if d == "f64": continue
            zs = [x for x in xs if x in (0, 1)] if lg else xs
            for a in (zs if lg else as_ if full or len(as_) < 6 else rnd.sample(as_, 6)): out.append(dict(k="semi", f=f, d=d, a=a, bs=zs))
    for d in ITYPES + ["f32", "f64"]:
        xs = lims(d)
        for f in UN[:4] + ["BitwiseNot"]:
            ys = xs
            if d[0] == "f" and f == "BitwiseNot": continue
            if f == "AdditiveInverse" and d[0] == "u": continue
            if f in ("AdditiveInverse", "Abs"): ys = [x for x in xs if not (x == [-1, 0] and d[0] == "i")]
            out.append(dict(k="limun", f=f, d=d, xs=ys))
        for f in CMP:
            for a in xs: out.append(dict(k="limbin", f=f, d=d, a=a, bs=xs))
        for f in ("PlusMonoid", "TimesMonoid", "MinMonoid", "MaxMonoid"): out.append(dict(k="limmon", f=f, d=d, xs=xs))
    return out

N1 = [NONE, 1]
def D(n, loops=False, W=N1): return dict(N=n, Und=False, Loops=loops, W=W)
def U(n, loops=False, W=N1): return dict(N=n, Und=True, Loops=loops, W=W)
# units; calls for an enumerated graph; random calls; instances (name, graphs, laws, cap), deeper ones
PLAN = {
 "C16": dict(units=["ops"], fixed=all_oper),
 "C19": dict(units=["ops"], fixed=lambda rnd, full: all_util(rnd), rand=r_util),
 "C20": dict(units=["alg_path"], fixed=both(b_bfs, shapes("shapepath")), call=c_bfs, rand=r_bfs,
     inst=[("G2", D(2, True), ["LevelLaw"], None), ("G3", D(3, True), ["LevelLaw"], 250), ("G4", D(4), ["LevelLaw"], 250)],
     deep=[("G4a", D(4, True), [], 3000)]),
 "C21": dict(units=["alg_path"], fixed=both(b_sssp, shapes("shapepath")), call=c_sssp, rand=r_sssp,
     inst=[("G2", D(2, True, [NONE, -2, 0, 3]), ["DistLaw"], None), ("G3", D(3, False, [NONE, -1, 0, 2]), ["DistLaw"], 1200)],
     deep=[("G3p", D(3, True, [NONE, 0, 1]), ["DistLaw"], 5000), ("G3n", D(3, False, [NONE, -2, 0, 1, 3]), ["DistLaw"], 5000),
           ("G4", D(4, False, [NONE, 1]), ["DistLaw"], None)]),
 "C22": dict(units=["alg_path"], fixed=both(shapes("shapepath")), call=c_metrics, rand=r_metrics,
     inst=[("G2", D(2, True, [NONE, 0, 3]), ["DistLaw"], None), ("G3", D(3, False, [NONE, 0, 2]), ["DistLaw"], None)],
     deep=[("G3l", D(3, True, [NONE, 1, 3]), ["DistLaw"], 5000)]),
 "C23": dict(units=["alg_misc"], fixed=b_tri, call=c_tri, rand=r_tri,
     inst=[("U3", U(3), ["TriLaw"], None), ("U4", U(4), ["TriLaw"], None), ("U5", U(5), ["TriLaw"], None)],
     deep=[("U6", U(6), ["TriLaw"], 8000)]),
 "C24": dict(units=["alg_misc"], call=c_truss, rand=r_truss,
     inst=[("U3", U(3), ["TrussLaw"], None), ("U4", U(4), ["TrussLaw"], None), ("U5", U(5), [], 700)],
     deep=[("U5l", U(5), ["TrussLaw"], None), ("U6", U(6), [], 6000)]),
 "C25": dict(units=["alg_misc"], fixed=shapes("shapemisc"), call=c_mis, rand=r_mis,
     inst=[("U3", U(3), ["MisLaw"], None), ("U4", U(4), ["MisLaw"], None), ("U5", U(5), ["MisLaw"], None)],
     deep=[("U6", U(6), [], 6000)]),
 "C26": dict(units=["alg_misc"], fixed=shapes("shapemisc"), call=c_mst, rand=r_mst,
     inst=[("U2", U(2, False, [NONE, -1, 2]), ["MstLaw"], None), ("U3", U(3, False, [NONE, -1, 0, 2]), ["MstLaw"], None),
           ("U4", U(4, False, [NONE, 1, 3]), ["MstLaw"], None)],
     deep=[("U4n", U(4, False, [NONE, -2, 0, 5]), ["MstLaw"], None), ("U5", U(5), ["MstLaw"], None)]),
 "C27": dict(units=["alg_misc"], fixed=b_flow, call=c_flow, rand=r_flow,
     inst=[("G2", D(2, False, [NONE, 1, 3]), ["CutLaw"], None), ("G3", D(3, False, [NONE, 1, 3]), ["CutLaw"], None), ("G4", D(4), ["CutLaw"], 2000)],
     deep=[("G4w", D(4), [], None), ("G3w", D(3, False, [NONE, 1, 2, 4]), ["CutLaw"], None)]),
 "C28": dict(units=["alg_bc"], fixed=both(b_bc, shapes("shapebc")), call=c_bc, rand=r_bc,
     inst=[("G2", D(2), ["BetLaw"], None), ("G3", D(3), ["BetLaw"], None), ("G4", D(4), [], 700)],
     deep=[("G4w", D(4), ["BetLaw"], None), ("U5", U(5), [], None)]),
 "C29": dict(units=["alg_clu"], fixed=shapes("shapeclu"), call=c_rank, rand=r_rank,
     inst=[("G2", D(2, True, [NONE, 1, 3]), [], None), ("G3", D(3, True), [], None)],
     deep=[("G4", D(4), [], None), ("G3w", D(3, False, [NONE, 1, 4]), [], None)]),
 "C30": dict(units=["alg_clu"], fixed=shapes("shapeclu"), call=c_clu, rand=r_clu,
     inst=[("U2", U(2, False, [NONE, 1, 3]), ["GainLaw"], None), ("U3", U(3, True), ["GainLaw"], None), ("U4", U(4), [], None)],
     deep=[("U5", U(5), [], None), ("U3w", U(3, True, [NONE, 1, 4]), ["GainLaw"], None)]),
}

# ------------------------------------------------------------------ running
def graphs(ck, name, conf, laws, cap, rnd):
    import mcgen
    mcgen.write(ck.dir, name, conf, module="MCGraphs", laws=laws, defaults={})
    if not laws:                                     # an empty INVARIANTS line is not allowed
        p = os.path.join(ck.dir, name + ".cfg")
        s = open(p).read().replace("INVARIANTS \n", ""); open(p, "w").write(s)
    rc, out = gbv.tlc(ck.dir, name, name + ".cfg", workers=JOBS, timeout=800, heap="6g")
    if rc: raise gbv.Broken("TLC %s: rc %d\n%s" % (name, rc, "\n".join(l for l in out.split("\n") if not l.startswith('<<"G'))[-3000:]))
    gen, dist = gbv.tlc_counts(out)
    gs = sorted(gbv.printed("G", out))
    total = len(gs)
    ck.states += dist; ck.transitions += gen
    if cap and total > cap: gs = rnd.sample(gs, cap)
    ck.exhaustive.append(dict(instance=name, constants={k: v for k, v in conf.items()}, laws=laws, states=dist, graphs=total,
                              graphs_given_to_the_library=len(gs)))
    ck.lap("tlc %s %d" % (name, total))
    return [json.loads(json.loads(x))["g"] for x in gs]

def play(ck, bins, plat, calls, tag):
    """The library's answers to calls; crashes and hangs are violations."""
    base = os.path.join(ck.dir, "p_%s_%s" % (plat, tag))
    recs, todo, crashes = [], calls, 0
    while todo:
        gbv.dump(base + ".cmd", todo)
        with open(base + ".out", "w") as f:
            r = subprocess.run([bins[plat], base + ".cmd"], stdout=f, stderr=subprocess.PIPE, timeout=800)
        crash = ck.split_crash(base + ".out")
        got = gbv.load(base + ".out")
        recs += got
        if crash is None:
            if r.returncode or len(got) != len(todo): raise gbv.Broken("driver rc %s %s" % (r.returncode, r.stderr[-300:]))
            break
        if crash["crash"] == 0: raise gbv.Broken("driver knows no %s" % crash["cmd"].get("k"))
        ck.violation("crash-" + crash["cmd"]["k"], "the library crashed or hung (signal %s) in %s" %
                     (crash["crash"], json.dumps(crash["cmd"])[:1500]), [crash["cmd"]], plat)
        recs.append(None)
        crashes += 1
        if crashes >= 3:
            recs += [None] * (len(todo) - len(got) - 1); break
        todo = todo[len(got) + 1:]
    for e in (".cmd", ".out"):
        if os.path.exists(base + e): os.unlink(base + e)
    return recs

def judge(ck, recs, tag):
    """recs: list of records; returns the indices that AlgTrace rejects, with the fields."""
    n = max(1, min(JOBS, len(recs) // 40))
    parts = [list(range(k, len(recs), n)) for k in range(n)]
    def one(a):
        k, idx = a
        f = os.path.join(ck.dir, "j_%s_%d.ndjson" % (tag, k))
        bad, states = [], 0
        while idx:
            gbv.dump(f, [recs[i] for i in idx])
            odd = []
            rej, st = gbv.check_trace(ck.dir, f, module="AlgTrace", malformed=odd)
            bad += [(idx[l - 1], json.loads(fields)) for l, fields in rej]
            states += st
            if not odd: break
            bad.append((idx[odd[0] - 1], ["malformed"]))     # an answer TLC cannot make sense of
            if len([b for b in bad if b[1] == ["malformed"]]) >= 5: break
            idx = idx[odd[0]:]
        os.unlink(f)
        return bad, states
    bad = []
    for b, st in gbv.pmap(one, enumerate(parts)):
        bad += b; ck.states += st; ck.transitions += st
    return bad

def decide(ck, bins, calls, tag):
    jobs = []
    m = max(1, JOBS // 2)
    parts = [calls[k::m] for k in range(m)]
    for k in range(m):
        for p in PLATFORMS: jobs.append((p, k))
    res = dict(zip(jobs, gbv.pmap(lambda j: play(ck, bins, j[0], parts[j[1]], "%s%d" % (tag, j[1])), jobs)))
    ck.lap("play " + tag)
    distinct, owner, total = [], [], 0
    for k in range(m):
        a, b = res[(PLATFORMS[0], k)], res[(PLATFORMS[1], k)]
        for i in range(len(parts[k])):
            x = a[i] if i < len(a) else None
            y = b[i] if i < len(b) else None
            for r, p in ((x, PLATFORMS[0]), (y, PLATFORMS[1])):
                if r is None: continue
                total += 1
                if p == PLATFORMS[1] and x == y: continue
                distinct.append(r); owner.append(p if x != y else "both")
    for r in distinct: ck.count("calls." + r["k"]); 
    ck.traces += total
    ck.count("answers_checked", total)
    if distinct and len(ck.samples) < 5: ck.samples += random.Random(ck.seed).sample(distinct, min(2, len(distinct)))
    bad = judge(ck, distinct, tag) if distinct else []
    ck.lap("judge %s %d" % (tag, len(distinct)))
    for i, fields in bad[:40]:
        r = distinct[i]
        call = {k: v for k, v in r.items() if k not in ("out", "err")}
        what = "call %s; wrong: %s; library gave %s %s" % (json.dumps(call)[:1000], ",".join(sorted(fields)),
               json.dumps({f: r["out"].get(f) for f in fields})[:800], json.dumps(r["err"]))
        for f in sorted(fields): ck.violation("%s-%s" % (r["k"], f), what, [call], owner[i])

def binding_demo(ck, bins, calls):
    """An answer with one number changed must be rejected."""
    rnd = random.Random(ck.seed)
    recs = [r for r in play(ck, bins, PLATFORMS[0], rnd.sample(calls, min(60, len(calls))), "demo") if r and r["out"]]
    done = 0
    for r in recs:
        f = rnd.choice(sorted(x for x in r["out"] if x != "t"))
        cell = r["out"][f]
        while cell and isinstance(cell[0], list): cell = rnd.choice(cell)
        if not cell: continue
        j = rnd.randrange(len(cell))
        cell[j] = cell[j] + 37 if cell[j] != NONE and r["k"] not in ("rank", "bc", "markov", "norm", "louvain", "peer", "mis") else (NONE if cell[j] != NONE else 1) if r["k"] not in ("rank", "bc", "markov", "norm") else 777777
        done += 1
    bad = judge(ck, recs, "demo")
    if not bad: raise gbv.Broken("corrupted answers were accepted")
    ck.notes["corrupted_answers_rejected"] = "%d of %d" % (len(bad), done)

PAIRED = {"alg_path": ["C20", "C21", "C22"], "alg_misc": ["C23", "C24", "C25", "C26", "C27"], "alg_bc": ["C28"], "alg_clu": ["C29", "C30"]}
def depth(x): return 1 + max([depth(y) for y in x], default=0) if isinstance(x, list) else 0
def pair(ck, n):
    """One call, two builds, one answer: every algorithm on random graphs (AlgPair)."""
    rnd = random.Random(ck.seed * 104729 + 11)
    bins = gbv.build([(u, None) for u in PAIRED], main="algmain")
    ck.lap("build algorithms")
    calls = []
    for props in PAIRED.values():
        for q in props:
            mine = []
            while len(mine) < n:
                mine += [c for c in PLAN[q]["rand"](rnd) if c["k"] != "louvain"]   # chooses by comparing rounded gains
            calls += mine[:n]
    m = max(1, JOBS // 2)
    parts = [calls[k::m] for k in range(m)]
    jobs = [(p, k) for k in range(m) for p in PLATFORMS]
    res = dict(zip(jobs, gbv.pmap(lambda j: play(ck, bins, j[0], parts[j[1]], "pa%d" % j[1]), jobs)))
    def one(k):
        a, b = res[(PLATFORMS[0], k)], res[(PLATFORMS[1], k)]
        both = [i for i in range(min(len(a), len(b))) if a[i] is not None and b[i] is not None]
        fa, fb = (os.path.join(ck.dir, "pa%d.%s" % (k, x)) for x in "ab")
        for f, rs in ((fa, a), (fb, b)):
            gbv.dump(f, [dict(k=rs[i]["k"], out=rs[i]["out"], err=rs[i]["err"], depth={x: depth(y) for x, y in rs[i]["out"].items()}) for i in both])
        rc, out = gbv.tlc(gbv.SPEC, "AlgPair", os.path.join(gbv.SPEC, "AlgPair.cfg"), {"TRACE_A": fa, "TRACE_B": fb})
        if rc: raise gbv.Broken("TLC AlgPair rc %d %s" % (rc, out[-2000:]))
        os.unlink(fa); os.unlink(fb)
        return [(a[both[l - 1]], b[both[l - 1]]) for l in (int(x) for x in re.findall(r'<<\s*"DIFFER",\s*"(\d+)"', out))], len(both)
    for dif, cnt in gbv.pmap(one, range(m)):
        ck.count("algorithm_answers_compared_between_platforms", cnt)
        ck.states += cnt; ck.transitions += cnt; ck.traces += cnt
        for x, y in dif[:5]:
            call = {k: v for k, v in x.items() if k not in ("out", "err")}
            fs = sorted(f for f in set(x["out"]) | set(y["out"]) if x["out"].get(f) != y["out"].get(f))
            ck.violation("pair-" + x["k"], "platforms differ on %s in %s: %s %s; %s %s" % (json.dumps(call)[:1000], fs,
                json.dumps({f: x["out"].get(f) for f in fs})[:500], x["err"], json.dumps({f: y["out"].get(f) for f in fs})[:500], y["err"]), [call], "both")

ASSUME = ["the harness' encoding of graphs and answers (harness/alg*.cpp, ops.cpp) is right; answers that are fractions are compared within rounding",
          "inputs are inside the algorithm's documented domain (see DESIGN.md)"]

def run(ck, tier):
    plan = PLAN[ck.prop]
    full = tier != "quick"
    rnd = random.Random(ck.seed * 7919 + 5)
    bins = gbv.build([(u, None) for u in plan["units"]], main="algmain")
    ck.lap("build"); ck.notes["build_s"] = round(__import__("time").time() - ck.t0, 1)
    calls = plan["fixed"](rnd, full) if "fixed" in plan else []
    if "call" in plan:
        calls += plan["call"](rnd, [[NONE]])
        for name, conf, laws, cap in plan["inst"] + (plan.get("deep", []) if full else []):
            for g in graphs(ck, name, conf, laws, cap, rnd): calls += plan["call"](rnd, g)
    nrand = plan.get("nrand", 3000)
    batch = list(calls)
    if "rand" in plan:
        while len(batch) < len(calls) + nrand: batch += plan["rand"](rnd)
    decide(ck, bins, batch, "q")
    if full and "rand" in plan:
        rounds = 0
        while ck.left(600) > 0 and not ck.found:
            batch = []
            while len(batch) < 4000: batch += plan["rand"](rnd)
            decide(ck, bins, batch, "t%d" % rounds); rounds += 1
        ck.notes["random_rounds"] = rounds
    if not ck.found: binding_demo(ck, bins, calls or batch)
    return ck.finish(assumptions=ASSUME)
