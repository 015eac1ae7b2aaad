import re
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from pbt.netcheck import check_net

PROPERTY = 'C02'
PREC = 1e-5      # weights are printed with six significant digits

@st.composite
def net_case(draw):
    directed = draw(st.booleans())
    g = draw(gen.graph(1, 8, 30, weighted=True, self_loops=draw(st.booleans()), exotic=True))
    if draw(st.booleans()):
        ws = draw(st.lists(st.floats(1e-3, 1e6), min_size=len(g['edges']), max_size=len(g['edges'])))
        g['edges'] = [[u, v, w] for (u, v, _), w in zip(g['edges'], ws)]
    if directed and g['edges']:
        have = {(u, v) for u, v, _ in g['edges']}
        for i in draw(st.lists(st.integers(0, len(g['edges']) - 1), max_size=6)):
            u, v, w = g['edges'][i]
            if (v, u) not in have: have.add((v, u)); g['edges'].append([v, u, w + 1])
    g['directed'] = directed
    return g

def wmof(g): return gen.wmap(g, not g['directed'])

def run_print(ctx, g):
    sym = 0 if g['directed'] else 1
    wm = wmof(g); lab = g['labels']
    for w in (1, 0):
        r = ctx.ex('graph').call('print', gen.net_args(g, bool(sym)), w, sym, w)
        # adjacency file: every link once
        rows = [l.split() for l in r['adj'].splitlines()]
        want = {}
        for (u, v), x in wm.items():
            if sym:
                want[frozenset((lab[u], lab[v]))] = x
            else: want[(lab[u], lab[v])] = x
        got = {}
        for row in rows:
            check(len(row) == 2 + w, 'adjacency line %r', row)
            k = frozenset(row[:2]) if sym else tuple(row[:2])
            check(k not in got, 'link %r written twice', row); got[k] = float(row[2]) if w else want.get(k)
        eq('written links', sorted(map(sorted, got)) if sym else sorted(got), sorted(map(sorted, want)) if sym else sorted(want))
        for k in want: check(close(got[k], want[k], PREC), 'weight of %r written as %r, is %r', sorted(k), got[k], want[k])
        # reading the file back
        b = ctx.ex('graph').call('fbuild', r['adj'], w, 1, 0, sym)
        got_lab = [x[0] for x in b['net']['nodes']]
        linked = {lab[u] for k in wm for u in k}
        eq('labels read back', sorted(got_lab), sorted(linked))
        pos = {l: i for i, l in enumerate(got_lab)}
        wm2 = {(pos[lab[u]], pos[lab[v]]): (x if w else 1.0) for (u, v), x in wm.items()}
        check_net(b['net'], got_lab, wm2, 'read back', PREC)
        # Pajek
        L = r['pajek'].splitlines()
        n = g['n']
        eq('Pajek header', L[0].split(), ['*Vertices', str(n)])
        for i in range(n):
            m = re.match(r'^\s*(\d+)\s+"(.*?)"((?:\s+-?[\d.]+){3})?\s*$', L[1 + i], re.S) if not w else re.match(r'^\s*(\d+)\s+"(.*)"((?:\s+-?[\d.]+){3})\s*$', L[1 + i], re.S)
            if not w: m = re.match(r'^\s*(\d+)\s+"(.*)"()\s*$', L[1 + i], re.S)
            check(m is not None, 'Pajek vertex line %r', L[1 + i])
            eq('Pajek vertex', (int(m.group(1)), m.group(2)), (i + 1, lab[i]))
            if w:
                for a, bb in zip(map(float, m.group(3).split()), (i * .5, i * i * .25, -i)): eq('Pajek coordinate', a, bb, 1e-5)
        eq('Pajek link header', L[1 + n].strip(), '*Edges' if sym else '*Arcs')
        got = {}
        for row in (l.split() for l in L[2 + n:]):
            check(len(row) == 2 + w, 'Pajek link line %r', row)
            u, v = int(row[0]) - 1, int(row[1]) - 1
            k = (min(u, v), max(u, v)) if sym else (u, v)
            check(k not in got, 'Pajek link %r written twice', k); got[k] = float(row[2]) if w else None
        want = {((min(k), max(k)) if sym else k): x for k, x in wm.items()}
        eq('Pajek links', sorted(got), sorted(want))
        if w:
            for k in want: check(close(got[k], want[k], PREC), 'Pajek weight of %r: %r, is %r', k, got[k], want[k])
        # degrees
        dg = [l.rsplit(' ', 1) for l in r['deg'].splitlines()]
        eq('degree file', [(a, int(b)) for a, b in dg], [(lab[u], sum(1 for k in wm if k[0] == u)) for u in range(n)])
    ctx.label('directed' if g['directed'] else 'undirected')
    if any(u == v for u, v, _ in g['edges']): ctx.label('self-link')
    if g['n'] > len({x for u, v, _ in g['edges'] for x in (u, v)}): ctx.label('isolated node')
    ctx.nontrivial(len(g['edges']) >= 2)

@st.composite
def copy_case(draw):
    g = draw(net_case())
    f = st.sampled_from([0.0, 1.5, -2.25, 1e9])
    i = st.sampled_from([0, 1, -1, 7, 123456])
    g['attr'] = [[draw(f), draw(f), draw(f), draw(i), draw(i), draw(i), draw(f)] for _ in range(g['n'])]
    g['warm'] = draw(st.booleans())
    return g

def run_copy(ctx, g):
    wm = wmof(g); n = g['n']
    r = ctx.ex('graph').call('copy', gen.net_args(g, not g['directed']), g['attr'], g['warm'])
    deg = [sum(1 for k in wm if k[0] == u) for u in range(n)]
    stg = [sum(x for k, x in wm.items() if k[0] == u) for u in range(n)]
    for name in ('copy', 'orig1', 'orig2', 'copy2'): check_net(r[name], g['labels'], wm, name)
    for name in ('cattr', 'oattr', 'oattr2'):
        for u in range(n):
            eq('%s of node %d' % (name, u), r[name][u][:7], g['attr'][u])
            eq('%s degree' % name, r[name][u][7], deg[u]); eq('%s strength' % name, r[name][u][8], stg[u], 1e-9)
    for name in ('copy', 'copy2', 'orig2'): eq('group numbers of %s' % name, [x[2] for x in r[name]['nodes']], [a[5] for a in g['attr']])
    # neighbour order is part of equality of a copy
    for name in ('copy', 'copy2'):
        eq('neighbour order of %s' % name, [[q[0] for q in a] for a in r[name]['adj']], [[q[0] for q in a] for a in r['orig2']['adj']])
    ctx.label('directed' if g['directed'] else 'undirected')
    ctx.nontrivial(len(g['edges']) >= 1)

FACETS = [
    Facet('print', net_case(), run_print, quick=3500, thorough=60000, exes=['graph'],
          rule='random networks (un/directed, weights, self-links, isolated nodes) printed with and without weights, re-read, parsed; non-trivial: >=2 links'),
    Facet('copy', copy_case(), run_copy, quick=3500, thorough=60000, exes=['graph'],
          rule='random networks with random node attributes; copy compared, mutated, freed; non-trivial: >=1 link'),
]
FACETS += gen.larger(FACETS, print=(200, 4000), copy=(200, 4000))
