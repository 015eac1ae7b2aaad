import re
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from pbt.netfile import seeds_matter, seed_lists, ring
from .c15 import role
from .c16 import planted
from .c19 import roles_of
from .c23 import bip_edges, projection, q_of

PROPERTY = 'C22'

@st.composite
def case(draw):
    bip = draw(st.integers(0, 2)) == 0; weighted = draw(st.booleans()); top = False
    if bip:
        b = draw(bip_edges(7, 7, weighted)); top = draw(st.booleans())
        la = ['a%d' % i for i in range(b['n'])]; lb = ['%s%d' % (draw(st.sampled_from('ab')), i) for i in range(b['t'])]
        rows = [[la[u], lb[a], w] for u, a, w in b['edges']]
        if top: rows = [[y, x, w] for x, y, w in rows]
        nodes, ids = la, dict(n=b['n'], t=b['t'], edges=b['edges'])
    else:
        g = draw(planted())['g'] if draw(st.integers(0, 3)) == 0 else draw(gen.graph(2, 10, 18, weighted=weighted, min_edges=1, exotic=True))
        rows = [[g['labels'][u], g['labels'][v], w if weighted else 1.0] for u, v, w in g['edges']]
        nodes = []
        for a, b, _ in rows:
            for x in (a, b):
                if x not in nodes: nodes.append(x)
        ids = dict(n=len(nodes), edges=[[nodes.index(a), nodes.index(b), w] for a, b, w in rows])
    opt = dict(seed=draw(st.one_of(st.none(), st.integers(1, 10 ** 6))), it=draw(st.sampled_from([None, 0.1, 1.0])), cool=draw(st.sampled_from([None, 0.8, 0.95])),
               C=draw(st.sampled_from([None, 0.0, 1.0])), roles=draw(st.booleans()), out=draw(st.booleans()), stdin=draw(st.booleans()), dash=draw(st.booleans()))
    return dict(bip=bip, top=top, weighted=weighted, rows=rows, nodes=nodes, ids=ids, opt=opt, mem=[draw(st.integers(0, 3)) for _ in range(len(nodes))])

def text(c): return ''.join('%s %s%s\n' % (a, b, ' %r' % w if c['weighted'] else '') for a, b, w in c['rows'])

def model(c):
    d = c['ids']
    if c['bip']: return projection(d['n'], d['t'], d['edges'])
    W = 2 * sum(e[2] for e in d['edges'])
    k, A = [0.0] * d['n'], {}
    for u, v, w in d['edges']:
        A[(u, v)] = A[(v, u)] = w / W
        k[u] += w / W; k[v] += w / W
    return A, k

def args_of(c):
    o = c['opt']; a = []
    if c['bip']: a.append('-b')
    if c['top']: a.append('-t')
    if c['weighted']: a.append('-w')
    return a

def run_netcarto(ctx, c, extra, files=None):
    o = c['opt']; a = args_of(c) + [str(x) for x in extra]; files = dict(files or {}); stdin = b''
    if o['stdin']:
        stdin = text(c).encode()
        if o['dash']: a += ['-f', '-']
    else: files['net.dat'] = text(c); a += ['-f', 'net.dat']
    if o['out']: a += ['-o', 'res.dat']
    elif o['dash']: a += ['-o', '-']
    if not a: a = ['-f', '-']                   # without any argument netcarto prints its usage
    rc, out, err, fs = ctx.run_prog('netcarto', a, files, flavour='asan', stdin=stdin)
    eq('exit status of netcarto %s (%s)' % (' '.join(a), err[-300:] if rc else ''), rc, 0)
    return fs['res.dat'].decode() if o['out'] else out

def parse(c, out):
    """-> (Q, Qdiag, membership by label, table rows)"""
    lines = out.split('\n')
    i = [j for j, l in enumerate(lines) if '# Modularity: ' in l]
    eq('modularity lines', len(i), 1)
    i = i[0]
    Q = float(lines[i].split(':')[1])
    check(lines[i + 1].startswith('# Modularity (with diagonal): '), 'second line: %r', lines[i + 1])
    Qd = float(lines[i + 1].split(':')[1])
    eq('end of the output', lines[-1], '')
    body = lines[i + 2:-1]
    mem, rows = {}, {}
    if c['opt']['roles']:
        eq('table header', body[0].split(), ['Label', 'Module', 'Connectivity', 'Participation', 'Role'])
        for l in body[1:]:
            x = l.split()
            eq('columns', len(x), 5)
            check(x[0] not in mem, 'node %s is listed twice', x[0])
            mem[x[0]] = int(x[1]); rows[x[0]] = (float(x[2]), float(x[3]), x[4])
    else:
        for m, l in enumerate(body):
            x = [y for y in l.split('\t') if y]
            check(len(x) > 0, 'empty module line')
            for y in x:
                check(y not in mem, 'node %s is listed twice', y)
                mem[y] = m
    eq('nodes listed', sorted(mem), sorted(c['nodes']))
    mem = [mem[l] for l in c['nodes']]
    eq('module numbers', sorted(set(mem)), list(range(len(set(mem)))))
    return Q, Qd, mem, rows

def verify(ctx, c, out):
    Q, Qd, mem, rows = parse(c, out)
    A, k = model(c); n = c['ids']['n']
    for got, d in ((Q, 0), (Qd, 1)):
        want = q_of(n, A, k, mem, d)
        check(abs(got - want) <= 6e-7, 'reported modularity %r, the listed modules have %r', got, want)
    if c['opt']['roles']:
        for l, (z, p) in zip(c['nodes'], roles_of(n, A, mem)):
            x = rows[l]
            check(abs(x[0] - z) < 2e-6 and abs(x[1] - p) < 2e-6, 'node %s: connectivity %r participation %r, expected %r %r', l, x[0], x[1], z, p)
            ok = {'R%d' % (role(p + a, z + b) + 1) for a in (-1e-9, 0, 1e-9) for b in (-1e-6, 0, 1e-6)}
            check(x[2] in ok, 'node %s: role %s, expected %r', l, x[2], ok)
        ctx.label('roles')
    return Q, mem

def run(ctx, c):
    o = c['opt']; extra = []
    if o['seed'] is not None: extra += ['-s', o['seed']]
    if o['it'] is not None: extra += ['-i', o['it']]
    if o['cool'] is not None: extra += ['-c', o['cool']]
    if o['C'] is not None: extra += ['-C', o['C']]
    if o['roles']: extra.append('-r')
    out = run_netcarto(ctx, c, extra)
    Q, mem = verify(ctx, c, out)
    A, k = model(c); n = c['ids']['n']
    one = q_of(n, A, k, [0] * n, 0)
    check(Q >= -1e-6, 'modularity %r is worse than that of the starting partition', Q)
    eq('same seed, same output', run_netcarto(ctx, c, extra), out)
    if o['seed'] is None:
        eq('the default seed is 1111', run_netcarto(ctx, c, extra + ['-s', 1111]), out)
    ctx.label('bipartite' if c['bip'] else 'unipartite', 'weighted' if c['weighted'] else 'unweighted', 'stdin' if o['stdin'] else 'file')
    ctx.nontrivial(len(set(mem)) > 1)

def run_given(ctx, c):
    """-p: modularity and roles of a given partition; the output reads back as the same partition."""
    want = gen.canon(c['mem'])
    groups = [[l for l, m in zip(c['nodes'], want) if m == g] for g in range(max(want) + 1)]
    pf = ''.join('\t'.join(g) + '\n' for g in groups)
    tail = ['-r'] if c['opt']['roles'] else []
    out = run_netcarto(ctx, c, ['-p', 'part.dat'] + tail, {'part.dat': pf})
    _, mem = verify(ctx, c, out)
    eq('modules', gen.canon(mem), want)
    if not c['opt']['roles']:
        body = out[out.index('# Modularity'):]
        out2 = run_netcarto(ctx, c, ['-p', 'part.dat'], {'part.dat': body})
        eq('output of the second pass', verify(ctx, c, out2)[1], mem)
        ctx.label('read back')
    ctx.nontrivial(len(groups) > 1)

def run_good(ctx, c):
    best, n = -9, c['ids']['n']
    A, k = model(c)
    target = max(q_of(n, A, k, p, 0) for p in gen.set_partitions(n))
    for s in range(5):
        Q, mem = verify(ctx, c, run_netcarto(ctx, c, ['-s', s + 1] + (['-r'] if c['opt']['roles'] else [])))
        best = max(best, Q)
        if best >= target - 1e-6: break
    check(best >= target - 1e-6, 'the best modularity in five runs is %r, %r is possible', best, target)
    ctx.nontrivial(target > 1e-6)

def run_seed(ctx, c):
    def f(s):
        rc, out, err, fs = ctx.run_prog('netcarto', ['-s', s, '-f', 'net.dat', '-i', '0.1', '-c', '0.8'], {'net.dat': ring(23)['text']}, flavour='asan')
        eq('exit status of netcarto', rc, 0)
        return out
    seeds_matter('netcarto', f, c['seeds'])
    ctx.nontrivial()

OPTS = {'-i': [0.05, 0.1, 0.2, 0.4, 0.7, 1], '-c': [0.3, 0.5, 0.6, 0.7, 0.8, 0.9], '-C': [0, 0.2, 0.4, 0.6, 0.8, 1]}
def run_options(ctx, c):
    """On a ring of many equally good partitions, what the annealing is told to do decides which one it finds."""
    o = {'-i': 0.1, '-c': 0.7, '-s': c['seed']}
    def f(v):
        x = dict(o); x[c['opt']] = v
        rc, out, err, fs = ctx.run_prog('netcarto', [y for kv in x.items() for y in kv] + ['-f', 'net.dat'], {'net.dat': ring(37)['text']}, flavour='asan')
        eq('exit status of netcarto', rc, 0)
        return out
    R = [f(v) for v in OPTS[c['opt']]]
    check(any(r != R[0] for r in R), 'netcarto gives the same result for every value %r of %s', OPTS[c['opt']], c['opt'])
    ctx.label(c['opt']); ctx.nontrivial()

FACETS = [
    Facet('options', st.fixed_dictionaries(dict(opt=st.sampled_from(sorted(OPTS)), seed=st.integers(1, 10 ** 6))), run_options, quick=24, thorough=200, progs=[('netcarto', 'asan')], rule='every case'),
    Facet('seed', st.fixed_dictionaries(dict(seeds=seed_lists(8))), run_seed, quick=24, thorough=200, progs=[('netcarto', 'asan')], rule='every case'),
    Facet('cluster', case(), run, quick=2500, thorough=20000, progs=[('netcarto', 'asan')], rule='several modules found'),
    Facet('given', case(), run_given, quick=1500, thorough=15000, progs=[('netcarto', 'asan')], rule='several modules given'),
    Facet('optimum', case().filter(lambda c: c['ids']['n'] <= 6), run_good, quick=600, thorough=5000, progs=[('netcarto', 'asan')], rule='positive optimum'),
]
FACETS += gen.larger(FACETS, cluster=(64, 1000), given=(64, 1000))
