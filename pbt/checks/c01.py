from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from pbt.netcheck import check_net

PROPERTY = 'C01'

@st.composite
def file_case(draw, bad=False):
    n = draw(gen.sizes(1, 7, 25))
    lab = draw(gen.labels(n, exotic=True))
    m = draw(st.integers(0, 14 if n < 8 else gen.scaled(50)))
    lines = []
    for _ in range(m):
        if lines and draw(st.integers(0, 4)) == 0:      # repeat a line, maybe reversed
            u, v = lines[draw(st.integers(0, len(lines) - 1))][:2]
            if draw(st.booleans()): u, v = v, u
        else:
            u, v = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        w = draw(st.sampled_from(['1', '2', '0.5', '3.25', '1e2', '10', '0', '-1.5', '7']))
        lines.append([u, v, w, draw(st.sampled_from([' ', ' ', '\t', '  ', ' \t ']))])
    c = dict(labels=lab, lines=lines, lead=draw(st.sampled_from(['', '', ' ', '\t'])), trail=draw(st.sampled_from(['', '', ' '])),
             final_nl=draw(st.booleans()), weight=draw(st.booleans()), auto=draw(st.booleans()), add=draw(st.booleans()), sym=draw(st.booleans()),
             third=draw(st.booleans()))
    if bad:
        c['bad_at'] = draw(st.integers(0, m)); c['bad'] = draw(st.sampled_from(['', 'x', ' ', 'lonely']))
    return c

def text(c):
    out = []
    for u, v, w, sp in c['lines']:
        s = c['lead'] + c['labels'][u] + sp + c['labels'][v]
        if c['weight'] or c['third']: s += sp + w
        out.append(s + c['trail'])
    if 'bad_at' in c: out.insert(c['bad_at'], c['bad'])
    t = '\n'.join(out)
    return t + ('\n' if (c['final_nl'] or 'bad_at' in c) and out else '')

def model(c):
    order, idx, wm = [], {}, {}
    def add(a, b, w):
        if a == b and not c['auto']: return
        if (a, b) in wm:
            if c['add']: wm[(a, b)] += w
        else: wm[(a, b)] = w
    for u, v, w, sp in c['lines']:
        w = float(w) if c['weight'] else 1.0
        ids = []
        for x in (u, v):
            l = c['labels'][x]
            if l not in idx: idx[l] = len(order); order.append(l)
            ids.append(idx[l])
        add(ids[0], ids[1], w)
        if c['sym'] and ids[0] != ids[1]: add(ids[1], ids[0], w)
    return order, wm

def run_build(ctx, c):
    order, wm = model(c)
    r = ctx.ex('graph').call('fbuild', text(c), c['weight'], c['auto'], c['add'], c['sym'])
    check_net(r['net'], order, wm)
    n = len(order)
    eq('node count', r['count'], n)
    eq('directed link count', r['links_dir'], len(wm))
    eq('symmetric link count', r['links_sym'], len(wm) // 2)
    for u in range(n):
        eq('degree of %r' % order[u], r['deg'][u], sum(1 for k in wm if k[0] == u))
        eq('strength of %r' % order[u], r['str'][u], sum(w for k, w in wm.items() if k[0] == u), 1e-9)
    eq('node lookup by label/number (bit mask of failures)', r['badlookup'], 0)
    eq('label presence test (bit mask of failures)', r['badisthere'], 0)
    for x in r['links']:
        i, j = x[0], x[1]
        want = 1 if (i, j) in wm else 0
        eq('link lookup %d-%d' % (i, j), x[2], want); eq('link lookup by number %d-%d' % (i, j), x[3], want)
        if want:
            eq('weight of looked-up link', x[4], wm[(i, j)], 1e-12); eq('looked-up link target', x[5], 1)
    pairs = [tuple(sorted((l[0], l[1]))) for l in c['lines']]
    rep = len(set(pairs)) < len(pairs); loop = any(a == b for a, b in pairs)
    if rep: ctx.label('repeated line')
    if loop: ctx.label('self-link')
    if n > 12: ctx.label('>12 nodes')
    for k in ('weight', 'auto', 'add', 'sym'):
        if c[k]: ctx.label(k)
    ctx.nontrivial(len(wm) >= 2 and (rep or loop or n >= 4))

def run_bad(ctx, c):
    """A line with too few fields: no network is returned (and nothing crashes)."""
    r = ctx.ex('graph').call('fbuild', text(c), c['weight'], c['auto'], c['add'], c['sym'])
    check(r['net'] is None, 'a line with missing fields was accepted: %r', text(c))
    ctx.nontrivial(len(c['lines']) >= 1)

FACETS = [
    Facet('build', file_case(), run_build, quick=6000, thorough=120000, exes=['graph'],
          rule='random adjacency files (labels, repeats, reversals, self-links, blanks) x 16 switch settings; non-trivial: >=2 links and a repeat, a self-link or >=4 nodes'),
    Facet('reject', file_case(bad=True), run_bad, quick=600, thorough=8000, exes=['graph'],
          rule='a file with one short line; non-trivial: at least one good line too'),
]
FACETS += gen.larger(FACETS, build=(300, 6000))
