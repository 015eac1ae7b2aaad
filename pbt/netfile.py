"""Network files for the programs: every node appears (isolated ones as self-links), links in any order, direction and multiplicity."""
from hypothesis import strategies as st
from pbt import gen

@st.composite
def netfile(draw, lo=2, hi=6, big=None, exotic=True, weights=None, min_edges=0, connected=False, labels=None):
    n = draw(gen.sizes(lo, hi, big))
    lab = draw((labels or gen.labels)(n)) if exotic else draw(gen.labels(n, exotic=False))
    es = [[u, v] for u, v in draw(gen.edges(n, connected=connected, min_edges=min_edges))]
    ws = [draw(weights) for _ in es] if weights is not None else [1.0] * len(es)
    rows = []
    deg = [0] * n
    for (u, v), w in zip(es, ws):
        deg[u] += 1; deg[v] += 1
        for _ in range(draw(st.sampled_from([1, 1, 1, 2]))): rows.append((u, v, w) if draw(st.booleans()) else (v, u, w))
    rows += [(u, u, 0.0) for u in range(n) if deg[u] == 0]
    rows += [(u, u, 0.0) for u in draw(st.lists(st.integers(0, n - 1), max_size=1))]
    if len(rows) <= 40: rows = draw(st.permutations(rows))
    sep = draw(st.sampled_from([' ', '\t', '  ']))
    num = (lambda w: '%d' % w if float(w).is_integer() else repr(w))
    text = '\n'.join(sep.join([lab[u], lab[v]] + ([num(w)] if weights is not None else [])) for u, v, w in rows) + draw(st.sampled_from(['\n', '\n', '']))
    return dict(g=dict(n=n, labels=lab, edges=[[u, v, w] for (u, v), w in zip(es, ws)]), text=text)

def seeds_matter(what, get, seeds, digits=True):
    """Runs with several seeds: all the same results would mean that the seed is not used."""
    from .core import Violation
    R = [get(s) for s in seeds]
    if all(r == R[0] for r in R): raise Violation('%s gives the same results for the seeds %r: %r' % (what, seeds, str(R[0])[:200]))
    return R

def ring(n, chords=()):
    """A ring, whose best module structures are many, and its text."""
    E = [[u, (u + 1) % n, 1.0] for u in range(n)] + [[u, v, 1.0] for u, v in chords]
    lab = ['n%d' % u for u in range(n)]
    return dict(g=dict(n=n, labels=lab, edges=E), text=''.join('%s %s\n' % (lab[u], lab[v]) for u, v, _ in E))

def seed_lists(k):
    """k different seeds: unrelated, or apart by one, a power of ten or of two"""
    return st.one_of(st.lists(st.one_of(st.integers(1, 10**6), st.integers(1, 2**31 - 1)), min_size=k, max_size=k, unique=True),
                     st.tuples(st.integers(1, 10**6), st.sampled_from([1, 10, 100, 1000, 10**6, 2**8, 2**15, 2**16, 2**24, 2**27])).map(lambda t: [t[0] + i * t[1] for i in range(k)]))
