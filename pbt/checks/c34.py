"""C34: rating files, queries and unobserved pairs."""
from hypothesis import strategies as st
from pbt.core import Facet, check, eq
from pbt import gen
from .c24 import check_bip

PROPERTY = 'C34'

@st.composite
def case(draw):
    n1 = draw(gen.sizes(1, 6, 20)); n2 = draw(gen.sizes(1, 6, 20))
    if n1 + n2 > 90 or draw(st.integers(0, 3)): l1 = draw(gen.labels(n1)); l2 = draw(gen.labels(n2))
    else: l = draw(gen.near_labels(n1 + n2)); l1, l2 = l[:n1], l[n1:]
    m = draw(gen.sizes(0, 14, 60))
    K = draw(st.integers(1, 6))
    rows = [[draw(st.sampled_from(l1)), draw(st.sampled_from(l2)), draw(st.integers(0, K - 1))] for _ in range(m)]
    nq = draw(gen.sizes(0, 6, 15))
    q = [[draw(st.sampled_from(l1)), draw(st.sampled_from(l2))] for _ in range(nq)]
    sep = draw(st.sampled_from([' ', '\t', '  ']))
    t = '\n'.join(sep.join(map(str, r)) for r in rows) + ('\n' if rows and draw(st.booleans()) else '')
    qt = '\n'.join(sep.join(r) for r in q) + ('\n' if q and draw(st.booleans()) else '')
    return dict(rows=rows, q=q, text=t, qtext=qt, remove=draw(st.lists(st.integers(0, K), max_size=4)))

def run(ctx, c):
    r = ctx.ex('recommend').call('files', c['text'], c['qtext'], len(c['q']), len(c['remove']), c['remove'])
    i1, i2, E = {}, {}, {}
    for a, b, w in c['rows']: E.setdefault((i1.setdefault(a, len(i1)), i2.setdefault(b, len(i2))), float(w))
    check_bip(r['read'], list(i1), list(i2), E, 'the observations read')
    o1, o2 = len(i1), len(i2)
    for a, b in c['q']: i1.setdefault(a, len(i1)); i2.setdefault(b, len(i2))
    L1, L2 = list(i1), list(i2)
    got1, got2 = [x[0] for x in r['net']['s1']], [x[0] for x in r['net']['s2']]
    eq('users after reading the queries', sorted(got1), sorted(L1)); eq('items after reading the queries', sorted(got2), sorted(L2))
    F = {(got1.index(L1[u]), got2.index(L2[a])): w for (u, a), w in E.items()}
    check_bip(r['net'], got1, got2, F, 'the network after reading the queries')
    eq('queries', [x[:2] for x in r['q']], [[got1.index(a), got2.index(b)] for a, b in c['q']])
    for i, s in enumerate(r['un']):
        if i: F = {k: w for k, w in F.items() if w != c['remove'][i - 1]}
        what = 'after removing ratings %r' % c['remove'][:i]
        check_bip(s['net'], got1, got2, F, what)
        want = sorted([u, a] for u in range(len(got1)) for a in range(len(got2)) if (u, a) not in F)
        eq(what + ': number of unobserved pairs', s['n'], len(want))
        eq(what + ': unobserved pairs', sorted(x[:2] for x in s['set']), want)
    if len(i1) > o1 or len(i2) > o2: ctx.label('query adds a node')
    if len(F) < len(E): ctx.label('ratings removed')
    ctx.nontrivial(len(E) >= 2 and len(c['q']) >= 1)

FACETS = [Facet('files', case(), run, quick=4000, thorough=60000, exes=['recommend'], rule='two or more ratings and a query')]
FACETS += gen.larger(FACETS, files=(300, 6000))
