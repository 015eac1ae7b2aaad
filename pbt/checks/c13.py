import math
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from pbt.netcheck import check_net, links_of
from .c12 import check_part, counters
from .c06 import comps

PROPERTY = 'C13'

@st.composite
def netpart(draw, lo=1, hi=9, big=20, exotic=True):
    g = draw(gen.graph(lo, hi, big, weighted=True, exotic=exotic))
    k = draw(st.integers(1, 6))
    return dict(g=g, k=k, mem=[draw(st.integers(0, k - 1)) for _ in range(g['n'])])

def groups_of(mem, k): return [(i, [u for u, x in enumerate(mem) if x == i]) for i in range(k)]

def run_io(ctx, c):
    g, k, mem = c['g'], c['k'], c['mem']
    r = ctx.ex('modules').call('pio', gen.net_args(g), k, mem)
    lab = g['labels']
    full = [x for x in groups_of(mem, k) if x[1]]
    # text forms, order inside a group is not promised
    txt = r['list']
    check(txt.endswith('///\n'), 'partition file does not end with a separator: %r', txt[-40:])
    blocks = [b.split('\n')[:-1] for b in txt.split('///\n')[:-1]]
    eq('groups in the file', [sorted(b) for b in blocks], [sorted(lab[u] for u in m) for _, m in full])
    lines = r['long'].split('\n')[:-1]
    eq('lines of the long form', len(lines), len(full))
    for line, (l, m) in zip(lines, full):
        head, _, names = line.partition(' --- ')
        f = head.split(' ')
        w = counters(g, None, m)
        eq('long form label, size, link counts', [int(x) for x in f[:5]], [l + 1, len(m)] + w[:3])
        check(all(abs(float(a) - b) <= 1e-6 + 1e-9 * abs(b) for a, b in zip(f[5:8], w[3:])), 'long form weights %r, expected %r', f[5:8], w[3:])
        eq('long form members', sorted(names.split(' ')), sorted(lab[u] for u in m))
    p = r['pajek'].split('\n')
    eq('Pajek partition', (p[0], [int(x) for x in p[1:-1]]), ('*Vertices %d' % g['n'], [x + 1 for x in mem]))
    back = [(i, m) for i, (_, m) in enumerate(full)]
    check_part(r['read'], g, back, 'read back', valid=False, nets=False)
    check_part(r['mapped'], g, back, 'read back and mapped')
    ing = [0] * g['n']
    for l, m in back:
        for u in m: ing[u] = l
    eq('group numbers after mapping', r['in'], ing)
    ctx.nontrivial(len(full) > 1 and len(g['edges']) > 0)

@st.composite
def text(draw):
    groups = draw(st.lists(st.lists(st.integers(0, 30), min_size=1, max_size=6), min_size=1, max_size=5))
    pool = draw(gen.labels(31, exotic=True))
    pool = [p if p != '///' else 'zz' for p in pool]
    seen = set(); gs = []
    for x in groups:
        y = [u for u in dict.fromkeys(x) if u not in seen]; seen.update(y)
        if y: gs.append([pool[u] for u in y])
    return dict(groups=gs or [[pool[0]]], tabs=draw(st.booleans()), final=draw(st.booleans()),
                sep=draw(st.sampled_from(['\n', '\n', ' ', '\n\n', '\t'])))

def run_text(ctx, c):
    if c['tabs']:
        # one module per line, names separated by tabs
        t = '\n'.join('\t'.join(x) for x in c['groups']) + ('\n' if c['final'] else '')
        r = ctx.ex('modules').call('pread', 1, t)
    else:
        s = c['sep']
        t = s.join(s.join(x) + s + '///' for x in c['groups']) + ('\n' if c['final'] else '')
        r = ctx.ex('modules').call('pread', 0, t)
    got = [[n[0] for n in x[3]] for x in r['read'] if x[1] > 0 or x[3]]
    eq('groups read from %r' % t, got, c['groups'])
    eq('sizes', [x[1] for x in r['read'] if x[1]], [len(x) for x in c['groups']])
    ctx.label('tab form' if c['tabs'] else '/// form', 'final newline' if c['final'] else 'no final newline')
    ctx.nontrivial(len(c['groups']) > 1)

@st.composite
def make(draw):
    c = draw(netpart(1, 9, 14, exotic=False))
    n = c['g']['n']
    c.update(gsize=draw(st.integers(1, n + 2)), sk=draw(st.integers(0, 5)), ss=draw(st.integers(0, 4)), which=draw(st.integers(0, 5)))
    return c

def run_make(ctx, c):
    g, mem, n = c['g'], c['mem'], c['g']['n']
    r = ctx.ex('modules').call('pmake', gen.net_args(g), c['gsize'], c['sk'], c['ss'], c['which'], mem)
    s = c['gsize']
    eqg = [(i, list(range(i * s, min(n, i * s + s)))) for i in range((n + s - 1) // s)]
    check_part(r['equi'], g, eqg, 'equal-size partition')
    eq('equal-size group numbers', r['equi_in'], [u // s for u in range(n)])
    eq('soft equal-size partition', [[x[0], x[1], [y[0] for y in x[3]]] for x in r['soft']],
       [[i, c['ss'], [str(i * c['ss'] + j + 1) for j in range(c['ss'])]] for i in range(c['sk'])])
    order = list(dict.fromkeys(mem))
    ig = [(l, [u for u in range(n) if mem[u] == l]) for l in order]
    by = lambda d: sorted(d, key=lambda x: x[0])
    ig = sorted(ig)
    check_part(by(r['ing']), g, ig, 'partition from group numbers')
    eq('group numbers kept', r['ing_in'], mem)
    check_part(by(r['copy']), g, ig, 'copy')
    check_part(by(r['orig']), g, ig, 'original after the copy was edited and removed')
    # network of one group
    labs = [x[0] for x in r['ing']]
    l = labs[min(c['which'], len(labs) - 1)]
    M = [u for u in range(n) if mem[u] == l]
    d = r['gnet']
    pos = [g['labels'].index(x[0]) for x in d['nodes']]
    eq('nodes of the group network', sorted(pos), M)
    W = gen.wmap(g)
    check_net(d, [g['labels'][u] for u in pos], {(i, j): W[(u, v)] for i, u in enumerate(pos) for j, v in enumerate(pos) if (u, v) in W}, 'group network')
    eq('attributes in the group network', [x[:6] for x in r['gattr']], [[10 + u, u * .5, -u, u * u, 3 * u, u / 4.] for u in pos])
    eq('degrees in the group network', [x[6] for x in r['gattr']], [sum(1 for v in pos if (u, v) in W) for u in pos])
    d = r['nnet']
    N = set(M) | {v for u in M for v in range(n) if (u, v) in W}
    pos = [g['labels'].index(x[0]) for x in d['nodes']]
    eq('nodes of the group-and-neighbours network', sorted(pos), sorted(N))
    check_net(d, [g['labels'][u] for u in pos], {(i, j): W[(u, v)] for i, u in enumerate(pos) for j, v in enumerate(pos) if (u, v) in W}, 'group-and-neighbours network')
    eq('group numbers in the group-and-neighbours network', r['nnet_in'], [mem[u] for u in pos])
    check_net(r['net'], g['labels'], W, 'network afterwards')
    cl = comps(n, gen.adj_sets(g), False)
    cl = sorted(sorted(x) for x in cl)
    check_part(r['clusters'], g, [(i, x) for i, x in enumerate(cl)], 'cluster partition')
    ctx.nontrivial(len(order) > 1 and bool(g['edges']))
    if len(cl) > 1: ctx.label('disconnected')
    if len(N) > len(M): ctx.label('group has outside neighbours')

@st.composite
def soft(draw):
    c = draw(netpart(1, 9))
    n = c['g']['n']
    c['keep'] = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n))
    return c

def run_soft(ctx, c):
    g, mem = c['g'], c['mem']
    keep = c['keep']
    sub = dict(n=len(keep), labels=[g['labels'][u] for u in keep], edges=[])
    r = ctx.ex('modules').call('psoft', gen.net_args(g), c['k'], mem, gen.net_args(sub))
    eq('group numbers in the sub-network', r['in'], [mem[u] for u in keep])
    check_part(r['part'], g, groups_of(mem, c['k']), 'partition after soft mapping')
    ctx.nontrivial(0 < len(keep) < g['n'])

FACETS = [
    Facet('io', netpart(), run_io, quick=3000, thorough=60000, exes=['modules'], rule='more than one non-empty group and links'),
    Facet('text', text(), run_text, quick=1500, thorough=20000, exes=['modules'], rule='files with more than one group'),
    Facet('make', make(), run_make, quick=3000, thorough=60000, exes=['modules'], rule='several groups and links'),
    Facet('soft', soft(), run_soft, quick=1000, thorough=15000, exes=['modules'], rule='a proper non-empty subset of the nodes'),
]
FACETS += gen.larger(FACETS, io=(200, 4000), make=(200, 3000), soft=(100, 1500))
