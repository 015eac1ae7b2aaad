"""Generators: networks, labels, partitions, weights. Cases are plain JSON-able values."""
from hypothesis import strategies as st

LABEL_ALPHABET = [c for c in map(chr, range(33, 127))]

def simple_labels(n):
    return ['n%d' % (i + 1) for i in range(n)]

@st.composite
def near_labels(draw, n):
    """n <= 90 labels that are easily taken for one another: one the beginning of the next, equal as numbers, equal but for the case,
    or different in the last characters only."""
    kind = draw(st.sampled_from(['prefix', 'zeros', 'decimals', 'case', 'tail', 'head']))
    if kind == 'prefix': c = draw(st.sampled_from('an1-')); l = [c * (i + 1) for i in range(n)]
    elif kind == 'zeros': l = ['0' * i + '1' for i in range(n)]
    elif kind == 'decimals': l = ['1.' + '0' * i if i else '1' for i in range(n)]
    elif kind == 'case': l = [''.join(ch.upper() if i >> b & 1 else ch for b, ch in enumerate('abcdefg')) for i in range(n)]
    elif kind == 'tail': l = ['x' * draw(st.sampled_from([7, 31, 60, 95])) + str(i) for i in range(n)]
    else: l = [str(i) + 'x' * 60 for i in range(n)]
    return draw(st.permutations(l))

@st.composite
def mixed_labels(draw, n):
    """n distinct labels, many of them long or odd."""
    odd = ['nan', 'inf', '-1', '+0', '1e5', '0x10', '#', '%s', '%d%n', '-', '--', '*', '0', '1', '"a"', "'", '$HOME', '\\n', '/', '//', '<a>', '>>>', '---', '(', ',', ';']
    one = st.one_of(st.integers(1, 99).map(lambda k: 'x' * k), st.integers(25, 99).map(lambda k: 'ab.'[k % 3] * k), st.sampled_from(odd), st.integers(0, 9).map(str),
                    st.tuples(st.integers(20, 97), st.integers(0, 99)).map(lambda t: 'y' * t[0] + str(t[1])))
    return draw(st.lists(one, min_size=n, max_size=n, unique=True))

@st.composite
def labels(draw, n, exotic=True):
    """n distinct labels."""
    kind = draw(st.sampled_from(['num', 'n', 'perm', 'exotic', 'exotic', 'near', 'mixed'] if exotic else ['num', 'n', 'perm']))
    if kind == 'num': return [str(i + 1) for i in range(n)]
    if kind == 'n': return simple_labels(n)
    if kind == 'perm':
        p = draw(st.permutations(list(range(n))))
        return ['v%d' % x for x in p]
    if kind == 'near' and n <= 90: return draw(near_labels(n))
    if kind == 'mixed' and n <= 60: return draw(mixed_labels(n))
    return draw(st.lists(st.text(LABEL_ALPHABET, min_size=1, max_size=draw(st.sampled_from([3, 12, 99]))).filter(lambda x: '///' not in x),   # what separates groups in partition files
                         min_size=n, max_size=n, unique=True))

LARGER = False
@st.composite
def larger_case(draw, s):
    global LARGER
    LARGER = True
    try: return draw(s)
    finally: LARGER = False

def larger(facets, **counts):
    """The same facets on networks, files and histories several times as large. counts: name -> (quick, thorough)."""
    from .core import Facet
    out = []
    for k, (q, t) in counts.items():
        f = [f for f in facets if f.name.replace(' ', '_').replace('-', '_') == k][0]
        out.append(Facet(f.name + ', larger', larger_case(f.strategy), f.run, quick=q, thorough=t, exes=f.exes, progs=f.progs, rule=f.rule))
    return out

def scaled(m): return 5 * m if LARGER else m

def lists(elem, hi, lo=0, **kw):
    """Lists of any length up to hi (hypothesis alone makes long ones rarely)."""
    hi = scaled(hi)
    return st.one_of(*[] if LARGER else [st.lists(elem, min_size=lo, max_size=hi, **kw)], st.integers(lo, hi).flatmap(lambda m: st.lists(elem, min_size=m, max_size=m, **kw)))

def sizes(lo, hi, big=None):
    """Mostly small sizes, sometimes big."""
    if big is None: return st.integers(lo, hi)
    if LARGER: return st.integers(big, 3 * big)
    return st.one_of(st.integers(lo, hi), st.integers(lo, hi), st.integers(lo, hi), st.integers(lo, big))

@st.composite
def edges(draw, n, self_loops=False, connected=False, min_edges=0):
    """List of distinct undirected pairs [u, v] (random order and orientation) on n nodes."""
    if n <= 0: return []
    es = []
    seen = set()
    def add(u, v):
        if u == v and not self_loops: return
        k = (min(u, v), max(u, v))
        if k not in seen:
            seen.add(k); es.append([u, v])
    kind = draw(st.sampled_from(['list', 'list', 'list', 'dense', 'tree+', 'cliques', 'special']))
    if connected and kind in ('list', 'dense', 'cliques'): kind = 'tree+'
    if kind == 'dense' and n > 50: kind = 'tree+'
    if kind == 'list':
        for u, v in draw(lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), 3 * n if not LARGER else n // 2)): add(u, v)
    elif kind == 'dense':
        drop = set(draw(st.lists(st.integers(0, n * (n - 1) // 2), max_size=n)))
        i = 0
        for u in range(n):
            for v in range(u):
                if i not in drop: add(u, v)
                i += 1
    elif kind == 'tree+':
        for v in range(1, n): add(v, draw(st.integers(0, v - 1)))
        for u, v in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=n)): add(u, v)
    elif kind == 'cliques':
        k = draw(st.integers(1, 4) if n <= 50 else st.integers(4, 12))
        g = [draw(st.integers(0, k - 1)) for _ in range(n)]
        for u in range(n):
            for v in range(u):
                if g[u] == g[v]: add(u, v)
        for u, v in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=3)): add(u, v)
    else:
        sp = draw(st.sampled_from(['star', 'cycle', 'path', 'complete', 'bip', 'wheel', 'grid']))
        if sp == 'star':
            for v in range(1, n): add(0, v)
        elif sp == 'cycle':
            for v in range(n): add(v, (v + 1) % n)
        elif sp == 'path':
            for v in range(1, n): add(v - 1, v)
        elif sp == 'complete':
            for v in range(n):
                for u in range(v): add(u, v)
        elif sp == 'bip':
            h = max(1, n // 2)
            for u in range(h):
                for v in range(h, n): add(u, v)
        elif sp == 'wheel':
            for v in range(1, n): add(0, v); add(v, v % (n - 1) + 1 if n > 1 else 0)
        else:
            w = max(1, int(n ** 0.5))
            for v in range(n):
                if (v + 1) % w and v + 1 < n: add(v, v + 1)
                if v + w < n: add(v, v + w)
    if self_loops:
        for u in draw(st.lists(st.integers(0, n - 1), max_size=2)): add(u, u)
    if draw(st.booleans()):
        es = draw(st.permutations(es)) if len(es) <= 40 else es
        flips = draw(st.integers(0, 2 ** min(len(es), 60) - 1)) if es else 0
        es = [[v, u] if (flips >> (i % 60)) & 1 else [u, v] for i, (u, v) in enumerate(es)]
    while len(es) < min_edges:
        free = [(u, v) for u in range(n) for v in range(u) if (v, u) not in seen]
        if not free: break
        add(*draw(st.sampled_from(free)))
    return [list(e) for e in es]

def weights(m, neg=False):
    """m positive weights, exactly representable with few digits (or unit)."""
    base = st.one_of(st.just(1.0), st.integers(1, 9).map(float), st.integers(1, 80).map(lambda x: x / 8.0))
    if m > 300: return st.lists(base, min_size=97, max_size=97).map(lambda l: (l * (m // 97 + 1))[:m])
    return st.one_of(st.just([1.0] * m), st.lists(base, min_size=m, max_size=m))

@st.composite
def graph(draw, lo=1, hi=9, big=None, weighted=False, self_loops=False, connected=False, exotic=False, min_edges=0):
    n = draw(sizes(lo, hi, big))
    es = draw(edges(n, self_loops=self_loops, connected=connected, min_edges=min_edges))
    lab = draw(labels(n, exotic=exotic))
    ws = draw(weights(len(es))) if weighted else [1.0] * len(es)
    return dict(n=n, labels=lab, edges=[[u, v, w] for (u, v), w in zip(es, ws)])

def net_args(g, symmetric=True):
    """Executor arguments of a network (see pbt_net.h read_net)."""
    adj = []
    for u, v, w in g['edges']:
        adj.append((u, v, float(w)))
        if symmetric and u != v: adj.append((v, u, float(w)))
    return [g['n'], g['labels'], len(adj), adj]

def adj_sets(g, symmetric=True):
    a = [set() for _ in range(g['n'])]
    for u, v, w in g['edges']:
        a[u].add(v)
        if symmetric: a[v].add(u)
    return a

def wmap(g, symmetric=True):
    m = {}
    for u, v, w in g['edges']:
        m[(u, v)] = w
        if symmetric: m[(v, u)] = w
    return m

@st.composite
def partition_labels(draw, n, maxg=None):
    """Group number of each node, 0..k-1, possibly with unused numbers."""
    k = draw(st.integers(1, max(1, maxg or n)))
    return [draw(st.integers(0, k - 1)) for _ in range(n)]

def canon(p):
    """Canonical form of a membership vector."""
    m = {}
    return [m.setdefault(x, len(m)) for x in p]

def set_partitions(n):
    """All membership vectors (restricted growth strings) of n items."""
    if n == 0:
        yield []
        return
    def rec(i, cur, k):
        if i == n:
            yield list(cur); return
        for c in range(k + 1):
            cur.append(c)
            yield from rec(i + 1, cur, max(k, c + 1))
            cur.pop()
    yield from rec(1, [0], 1)
