from hypothesis import strategies as st
from pbt.core import Facet, check, eq
from pbt import gen
from .c24 import bip, bargs, check_bip, emap

PROPERTY = 'C26'

def swaps(E):
    """All ordered pairs of links that can be swapped in link set E."""
    return [(a, b) for a in E for b in E if a[0] != b[0] and a[1] != b[1] and (a[0], b[1]) not in E and (b[0], a[1]) not in E]

@st.composite
def case(draw):
    b = draw(bip(6, 15, min_edges=2))
    if not swaps(emap(b)):               # make one possible
        b['edges'] = [e for e in b['edges'] if (e[0], e[1]) not in {(0, 0), (0, 1), (1, 0), (1, 1)}]
        while len(b['l1']) < 2: b['l1'] = ['s1', 's2']
        while len(b['l2']) < 2: b['l2'] = ['t1', 't2']
        b['edges'] += [[0, 0, 1.0], [1, 1, 1.0]]
    full = 2 * len(b['edges']) > len(b['l1']) * len(b['l2']) and len(b['edges']) > 100     # nearly every pair of links is refused
    return dict(b=b, times=draw(st.sampled_from([0.0, 0.3, 1.0, 5.0] if not full else [0.0, 3.5 / len(b['edges'])])), seed=draw(st.integers(1, 2 ** 31)))

def run(ctx, c):
    b = c['b']; E = emap(b)
    if not swaps(set(E)): ctx.label('no swap possible'); return
    n1, n2 = len(b['l1']), len(b['l2'])
    r = ctx.ex('bipart').call('brand', bargs(b), c['times'], c['seed'])
    got = {(u, x[0]) for u, y in enumerate(r['net']['s1']) for x in y[3]}
    check_bip(r['net'], b['l1'], b['l2'], {e: None for e in got}, 'randomised network')
    for s, n in ((0, n1), (1, n2)):
        eq('degrees of set %d' % (s + 1), [sum(1 for e in got if e[s] == u) for u in range(n)], [sum(1 for e in E if e[s] == u) for u in range(n)])
    if c['times'] == 0: eq('no iterations: links', got, set(E))
    if all(w == 1 for w in E.values()):
        check(all(x[3] == 1 for y in r['net']['s1'] + r['net']['s2'] for x in y[3]), 'links of an unweighted network do not weigh 1 after randomising')
    r2 = ctx.ex('bipart').call('brand', bargs(b), c['times'], c['seed'])
    eq('same seed, same network', r2['net'], r['net'])
    if got != set(E): ctx.label('changed')
    ctx.nontrivial(got != set(E))

@st.composite
def dist(draw):
    n1, n2 = draw(st.integers(2, 3)), draw(st.integers(2, 4))
    m = draw(st.lists(st.booleans(), min_size=n1 * n2, max_size=n1 * n2))
    E = {(i // n2, i % n2) for i in range(n1 * n2) if m[i]}
    if not swaps(E): E = (E - {(0, 1), (1, 0)}) | {(0, 0), (1, 1)}
    b = dict(l1=gen.simple_labels(n1), l2=gen.simple_labels(n2), edges=[[u, a, 1.0] for u, a in sorted(E)])
    return dict(b=b, steps=draw(st.integers(1, 4)), seed=draw(st.integers(1, 2 ** 31)))

REPS = 3000
def run_dist(ctx, c):
    """The networks reached after a given number of swaps; p is their probability if all possible swaps are equally likely."""
    b = c['b']; E0 = frozenset(emap(b)); m = len(E0); n2 = len(b['l2'])
    if not swaps(E0): return
    k = c['steps']
    cur = {E0: 1.0}
    for _ in range(k):
        nxt = {}
        for E, p in cur.items():
            sw = swaps(E)
            for x, y in sw:
                F = (E - {x, y}) | {(x[0], y[1]), (y[0], x[1])}
                nxt[F] = nxt.get(F, 0.0) + p / len(sw)
        cur = nxt
        if len(cur) > 120: return
    times = (k - 0.5) / m
    r = ctx.ex('bipart', 'opt').call('brandstat', bargs(b), times, c['seed'], REPS)
    cnt = {}
    for x in r['s']: cnt[x] = cnt.get(x, 0) + 1
    want = {sum(1 << (u * n2 + a) for u, a in E): p for E, p in cur.items()}
    for x in cnt: check(x in want, 'after %d swaps a network that swaps cannot reach: %s', k, bin(x))
    for x, p in want.items():
        check(p < 0.05 or x in cnt, 'network %s is reachable with %d swaps (probability about %g) but never produced in %d runs', bin(x), k, p, REPS)
    ctx.label('%d networks' % len(want))
    ctx.nontrivial(len(want) > 1)

FACETS = [
    Facet('random', case(), run, quick=5000, thorough=150000, exes=['bipart'], rule='the links changed'),
    Facet('reach', dist(), run_dist, quick=600, thorough=12000, exes=[('bipart', 'opt')], rule='several networks are reachable'),
]
FACETS += gen.larger(FACETS, random=(200, 3000))
