import math, random
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from .c15 import role
from .c17 import check_state

PROPERTY = 'C21'

@st.composite
def edge_text(draw):
    weighted = draw(st.booleans()); bip = draw(st.sampled_from([0, 0, 1, 2]))
    big = draw(st.integers(0, 5)) == 0
    if big:
        rnd = random.Random(draw(st.integers(0, 10 ** 9)))
        n = rnd.randint(5, 120); m = rnd.randint(50, 500)
        lab = ['v%d' % i for i in range(n)]
        rows = [(rnd.choice(lab), rnd.choice(lab), rnd.randint(1, 99) / 4.0) for _ in range(m)]
    else:
        n = draw(st.integers(1, 14))
        lab = draw(gen.labels(n))
        rows = [(lab[draw(st.integers(0, n - 1))], lab[draw(st.integers(0, n - 1))], draw(st.integers(-8, 800)) / 8.0) for _ in range(draw(st.integers(0, 25)))]
    out = []
    sep = draw(st.sampled_from([' ', '\t', '  ', ' \t ']))
    for a, b, w in rows:
        s = sep.join([a, b] + ([repr(w)] if weighted else []))
        if not big and draw(st.integers(0, 9)) == 0: s = sep + s + sep + 'extra'
        out.append(s)
    bad = draw(st.integers(0, 11)) == 0
    if bad: out.insert(draw(st.integers(0, len(out))), draw(st.sampled_from(['', '  ', 'alone'] + (['a b', 'a b x'] if weighted else []))))
    text = '\n'.join(out) + ('\n' if out and (draw(st.booleans()) or out[-1] == '') else '')
    return dict(text=text, rows=[list(x) for x in rows], weighted=weighted, bip=bip, bad=bad)

def run_edges(ctx, c):
    r = ctx.ex('partition').call('edges', c['text'], int(c['weighted']), c['bip'])
    if c['bad']:
        check(r['rc'] != 0, 'a line with too few fields was accepted')
        ctx.label('rejected'); ctx.nontrivial(); return
    eq('return code', r['rc'], 0)
    rows = c['rows']
    eq('number of edges', len(r['edges']), len(rows))
    lab = r['labels']
    eq('distinct labels', len(set(lab)), len(lab))
    col = lambda i: [x[i] for x in rows]
    if c['bip'] == 0:
        eq('labels', sorted(lab), sorted(set(col(0) + col(1))))
        for i, (e, x) in enumerate(zip(r['edges'], rows)):
            eq('ends of line %d' % i, [lab[e[0]], lab[e[1]]], [x[0], x[1]])
    else:
        a, b = (col(0), col(1)) if c['bip'] == 1 else (col(1), col(0))
        eq('labels', sorted(lab), sorted(set(a)))
        eq('ids of the first set', [lab[e[0]] for e in r['edges']], a)
        ids = {}
        for e, x in zip(r['edges'], b): eq('id of %r in the second set' % x, ids.setdefault(x, e[1]), e[1])
        eq('ids of the second set', sorted(ids.values()), list(range(len(set(b)))))
    for i, (e, x) in enumerate(zip(r['edges'], rows)):
        eq('weight of line %d' % i, e[2], x[2] if c['weighted'] else 1.0)
    ctx.label('bipartite %d' % c['bip'])
    ctx.nontrivial(len(rows) > 1)

val = st.one_of(st.sampled_from([0.0, 0.05, 0.62, 0.8, 0.3, 0.75, 1.0]), st.floats(0, 1))
zval = st.one_of(st.sampled_from([2.5, 0.0, -1.0]), st.floats(-5, 9))

@st.composite
def outputs(draw):
    n = draw(gen.sizes(1, 10, 40)); M = draw(st.integers(1, n))
    return dict(n=n, M=M, labels=draw(gen.labels(n)), mem=[draw(st.integers(0, M - 1)) for _ in range(n)],
                z=[draw(zval) for _ in range(n)], P=[draw(val) for _ in range(n)],
                pre=draw(st.booleans()), blank=draw(st.booleans()), crlf=draw(st.booleans()), tail=draw(st.booleans()), nl=draw(st.booleans()),
                drop=draw(st.lists(st.integers(0, n - 1), max_size=2)), stranger=draw(st.booleans()), edit=draw(st.booleans()))

def run_out(ctx, c):
    n, M, mem, lab = c['n'], c['M'], c['mem'], c['labels']
    r = ctx.ex('partition').call('out', n, M, lab, mem, [[float(z), float(p)] for z, p in zip(c['z'], c['P'])])
    rows = [x.split('\t') for x in r['table'].split('\n')[:-1]]
    eq('table header', [x.strip() for x in rows[0]], ['Label', 'Module', 'Connectivity', 'Participation', 'Role'])
    eq('table rows', len(rows) - 1, n)
    for u, x in enumerate(rows[1:]):
        eq('columns of row %d' % u, len(x), 5)
        eq('row %d' % u, [x[0].rstrip(' '), int(x[1]), x[4]], [lab[u], mem[u], 'R%d' % (role(c['P'][u], c['z'][u]) + 1)])
        check(abs(float(x[2]) - c['z'][u]) <= 6e-7 and abs(float(x[3]) - c['P'][u]) <= 6e-7, 'row %d: connectivity %s participation %s, expected %r %r', u, x[2], x[3], c['z'][u], c['P'][u])
    lines = r['clust'].split('\n')[:-1]
    groups = [sorted(x for x in l.split('\t') if x) for l in lines]
    want = [sorted(lab[u] for u in range(n) if mem[u] == m) for m in range(M)]
    eq('clustering lines', [g for g in groups if g], [g for g in want if g])
    # read it back, possibly edited
    text, missing, known = r['clust'], 0, set(range(n))
    if c['edit']:
        gone = {lab[u] for u in c['drop']}
        known = {u for u in range(n) if lab[u] not in gone}
        ls = [[x for x in l.split('\t') if x and x not in gone] for l in lines]
        if c['stranger'] and 'stranger!' not in lab: ls[0].append('stranger!')
        ls = [x for x in ls if x or c['blank']]
        e = '\r\n' if c['crlf'] else '\n'
        text = e.join('\t'.join(x) + ('\t' if c['tail'] else '') for x in ls) + (e if c['nl'] else '')
    if c['pre']: text = '# Modularity: 0.25\n# Modularity (with diagonal): 0.1\n' + text
    k = [(i + 1) / 16.0 for i in range(n)]
    a = ctx.ex('partition').call('assignf', n, n, lab, k, text)
    eq('nodes missing', a['missing'], n - len(known))
    s = a['part']
    got = sorted(sorted(m[3]) for m in s['modules'] if m[3])
    eq('modules read back', got, sorted(x for x in (sorted(u for u in known if mem[u] == m) for m in range(M)) if x))
    eq('empty modules after reading', s['nempty'], 0)
    if len(known) == n: check_state(s, n, 'partition read back', k)
    for m in s['modules']: check(abs(m[2] - sum(k[u] for u in m[3])) < 1e-9, 'strength of module %d: %r', m[0], m[2])
    ctx.label('edited' if c['edit'] else 'as written')
    ctx.nontrivial(len(got) > 1)

FACETS = [
    Facet('edges', edge_text(), run_edges, quick=4000, thorough=60000, exes=['partition'], rule='several edges, or a malformed line'),
    Facet('outputs', outputs(), run_out, quick=4000, thorough=60000, exes=['partition'], rule='several modules'),
]
FACETS += gen.larger(FACETS, outputs=(200, 4000))
