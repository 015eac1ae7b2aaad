"""C42: netcarto-legacy writes one consistent set of files: modules, roles, node properties, Pajek files, randomisations."""
import math, re
from hypothesis import strategies as st
from pbt.core import Facet, check, eq
from pbt import gen
from pbt.netfile import netfile, seeds_matter, seed_lists, ring
from .c08 import eset, has_swap
from .c12 import counters
from .c14 import modularity
from .c15 import metrics, roles_ok
from .c16 import planted

PROPERTY = 'C42'
FILES = ['modules.clu', 'modules.dat', 'network.net', 'node_prop.dat', 'randomized_mod.dat', 'roles.clu', 'roles.dat']

@st.composite
def case(draw, hi=10):
    if hi > 6 and draw(st.integers(0, 2)) == 0:
        g = draw(planted())['g']
        c = dict(g=dict(n=g['n'], labels=g['labels'], edges=[[u, v, 1.0] for u, v, _ in g['edges']]))
        seen = {u for e in g['edges'] for u in e[:2]}
        c['text'] = ''.join('%s %s\n' % (g['labels'][u], g['labels'][v]) for u, v in [e[:2] for e in g['edges']] + [[u, u] for u in range(g['n']) if u not in seen])
    else: c = draw(netfile(2, hi, min_edges=1))
    c['opt'] = dict(seed=draw(st.one_of(st.none(), st.integers(1, 10 ** 6))), it=draw(st.sampled_from([0.1, 0.1, 0.5] if c['g']['n'] > 6 else [None, 0.1, 1.0])),
                    cool=draw(st.sampled_from([0.8, 0.8, 0.9] if c['g']['n'] > 6 else [0.8, 0.8, 0.8, 0.95, None])),
                    how=draw(st.sampled_from(['file', 'file', 'stdin', 'dash', 'ask'])), rep=0)
    if draw(st.integers(0, 2)) == 0 and len(c['g']['edges']) <= 20 and has_swap(eset(c['g'])): c['opt']['rep'] = draw(st.integers(1, 3))
    return c

def run_prog(ctx, c, seed=None):
    o = dict(c['opt']); files = {}; stdin = b''; a = []
    if seed is not None: o['seed'] = seed
    if o['how'] == 'ask':                                     # without arguments the program asks for its parameters
        files['net.dat'] = c['text']
        stdin = ('%d\nnet.dat\n%r\n%r\n%d\n' % (1111 if o['seed'] is None else o['seed'], o['it'] or 1.0, o['cool'] or 0.9, o['rep'])).encode()
    else:
        if o['how'] == 'file': files['net.dat'] = c['text']; a = ['-f', 'net.dat']
        else:
            stdin = c['text'].encode()
            if o['how'] == 'dash': a = ['-f', '-']
        for k, f in (('seed', '-s'), ('it', '-i'), ('cool', '-c')):
            if o[k] is not None: a += [f, o[k]]
        if o['rep']: a += ['-r', o['rep']]
        if not a: a = ['-r', 0]
    rc, out, err, fs = ctx.run_prog('netcarto_legacy', a, files, 'asan', stdin=stdin)
    eq('exit status of netcarto-legacy %s (%s)' % (' '.join(map(str, a)), err[-300:] if rc else ''), rc, 0)
    if files: eq('the input file afterwards', fs.pop('net.dat').decode(), c['text'])
    eq('files written', sorted(x for x in fs if x != 'part.tmp'), FILES)          # part.tmp: progress of the annealing
    return {k: v.decode() for k, v in fs.items()}

def long_form(g, text, what):
    """-> [(id, members)]; the counters are checked"""
    lab = {l: i for i, l in enumerate(g['labels'])}
    out, seen = [], set()
    for line in text.split('\n')[:-1]:
        head, s, names = line.partition(' --- ')
        check(s, '%s: line %r', what, line)
        f = head.split(' '); m = []
        for x in names.split(' '):
            check(x in lab, '%s: unknown node %r', what, x)
            check(x not in seen, '%s: node %r is listed twice', what, x)
            seen.add(x); m.append(lab[x])
        w = counters(g, None, m)
        eq('%s: size and links' % what, [int(x) for x in f[1:5]], [len(m)] + w[:3])
        check(all(abs(float(a) - b) <= 1e-6 for a, b in zip(f[5:8], w[3:])), '%s: weights %r, expected %r', what, f[5:8], w[3:])
        out.append((int(f[0]), m))
    eq('%s: nodes' % what, len(seen), g['n'])
    ids = [x for x, _ in out]
    eq('%s: ids' % what, len(set(ids)), len(ids))
    return out

def clu(text, n, what):
    L = text.split('\n')
    eq('%s: header' % what, L[0], '*Vertices %d' % n)
    eq('%s: lines' % what, (len(L), L[-1]), (n + 2, ''))
    return [int(x) for x in L[1:-1]]

def verify(ctx, c, fs):
    g = c['g']; n, lab, es = g['n'], g['labels'], [[u, v, 1.0] for u, v, _ in g['edges']]
    g = dict(g, edges=es); W = gen.wmap(g)
    # the network
    L = fs['network.net'].split('\n')
    eq('network.net header', L[0].split(), ['*Vertices', str(n)])
    order = []
    for i in range(n):
        m = re.match(r'^\s*(\d+)\s+"(.*)"\s*$', L[1 + i])
        check(m and int(m.group(1)) == i + 1, 'network.net vertex line %r', L[1 + i])
        order.append(m.group(2))
    eq('vertices', sorted(order), sorted(lab))
    pos = [lab.index(x) for x in order]
    eq('network.net links', (L[1 + n].strip(), sorted(sorted(pos[int(x) - 1] for x in l.split()) for l in L[2 + n:-1])), ('*Edges', sorted(sorted(e[:2]) for e in es)))
    # modules
    body, s, q = fs['modules.dat'].rpartition('# Modularity = ')
    check(s, 'modules.dat has no modularity line')
    mods = long_form(g, body, 'modules.dat')
    mem = [None] * n
    for i, m in mods:
        for u in m: mem[u] = i
    eq('modules.clu', clu(fs['modules.clu'], n, 'modules.clu'), [mem[u] for u in pos])
    Q = modularity(n, W, mem)
    check(abs(float(q) - Q) <= 1e-6 + 1e-5 * abs(Q), 'modules.dat reports modularity %s, the modules have %r', q.strip(), Q)
    # node properties
    P, z = metrics(n, W, mem)
    rows = [l.split() for l in fs['node_prop.dat'].split('\n')[:-1]]
    eq('node_prop.dat nodes', sorted(r[0] for r in rows), sorted(lab))
    deg = [0] * n
    for u, v, _ in es: deg[u] += 1; deg[v] += 1
    for r in rows:
        u = lab.index(r[0])
        check(len(r) == 4 and int(r[1]) == deg[u] and abs(float(r[2]) - P[u]) < 2e-6 and abs(float(r[3]) - z[u]) < 2e-6,
              'node_prop.dat: %r, expected degree %d, P %r, z %r', r, deg[u], P[u], z[u])
    # roles
    roles = long_form(g, fs['roles.dat'], 'roles.dat')
    rl = [None] * n
    for i, m in roles:
        for u in m:
            rl[u] = i
            check(i - 1 in roles_ok(P[u], z[u]), 'roles.dat: node %r with P=%r z=%r has role %d', lab[u], P[u], z[u], i)
    eq('roles.clu', clu(fs['roles.clu'], n, 'roles.clu'), [rl[u] for u in pos])
    # randomisations
    x = fs['randomized_mod.dat'].split('\n')
    check(len(x) == 3 and x[0].startswith('#') and len(x[1].split()) == 3 and x[2] == '', 'randomized_mod.dat: %r', x)
    a, b, d = map(float, x[1].split())
    check(abs(a - Q) < 2e-6, 'randomized_mod.dat: modularity %r, is %r', a, Q)
    if c['opt']['rep']:
        # modularity lies in [-1/2, 1); the standard deviation of values in an interval is at most half its width
        check(-0.5 - 1e-6 <= b < 1 and 0 <= d <= 0.75, 'randomized_mod.dat: mean %r, standard deviation %r', b, d)
        if c['opt']['rep'] == 1: eq('standard deviation of a single value', d, 0.0)
        ctx.label('randomised')
    return Q, len(mods), b, d

def run(ctx, c):
    fs = run_prog(ctx, c)
    Q, k, b, d = verify(ctx, c, fs)
    check(Q >= -0.5 - 1e-9, 'modularity %r', Q)
    eq('same seed, same files', run_prog(ctx, c), fs)
    r = c['opt']['rep']
    if r > 1:
        # the same random numbers serve the first k randomisations of every run: their modularities follow from the means
        m = [verify(ctx, dict(c, opt=dict(c['opt'], rep=j)), run_prog(ctx, dict(c, opt=dict(c['opt'], rep=j))))[2] for j in range(1, r)] + [b]
        x = [m[0]] + [(j + 1) * m[j] - j * m[j - 1] for j in range(1, r)]
        sd = math.sqrt(sum((y - b) ** 2 for y in x) / r)
        check(abs(sd - d) <= 2e-5, 'the randomisations have modularities %r: standard deviation %r, reported %r', x, sd, d)
        if sd > 1e-4: ctx.label('varied randomisations')
    if c['opt']['seed'] is None: eq('the default seed is 1111', run_prog(ctx, c, 1111), fs)
    ctx.label(c['opt']['how'])
    ctx.nontrivial(k > 1)

def run_good(ctx, c):
    g = c['g']; n = g['n']; W = gen.wmap(dict(g, edges=[[u, v, 1.0] for u, v, _ in g['edges']]))
    target = max(modularity(n, W, p) for p in gen.set_partitions(n))
    c['opt'].update(it=1.0, cool=0.95, rep=0)
    best = -9
    for s in range(5):
        best = max(best, verify(ctx, c, run_prog(ctx, c, s + 1))[0])
        if best >= target - 1e-6: break
    check(best >= target - 1e-6, 'the best modularity in five runs is %r, %r is possible', best, target)
    ctx.nontrivial(target > 1e-6)

# networks all of whose swaps lead to isomorphic networks: the modularity of a randomisation is known
def run_random(ctx, c):
    """k disjoint links always become k disjoint links; their best modularity is 1 - 1/k."""
    k = c['k']; n = 2 * k; lab = gen.simple_labels(n)
    c = dict(g=dict(n=n, labels=lab, edges=[[2 * i, 2 * i + 1, 1.0] for i in range(k)]), text=''.join('%s %s\n' % (lab[2 * i], lab[2 * i + 1]) for i in range(k)),
             opt=dict(seed=c['seed'], it=1.0, cool=0.95, how=c['how'], rep=c['rep']))
    Q, _, b, d = verify(ctx, c, run_prog(ctx, c))
    check(b <= 1 - 1 / k + 1e-6, 'the mean modularity of the randomisations is %r, %r is the best there is', b, 1 - 1 / k)
    check(b >= 1 - 1 / k - 0.15, 'the mean modularity of the randomisations is %r; they are all %d disjoint links (%r)', b, k, 1 - 1 / k)
    if abs(b - (1 - 1 / k)) < 1e-6: check(d < 1e-5, 'all the randomisations have modularity %r and the standard deviation is %r', b, d); ctx.label('exact mean')
    ctx.nontrivial(c['opt']['rep'] > 1)

rnd = st.fixed_dictionaries(dict(k=st.integers(3, 6), seed=st.integers(1, 10 ** 6), rep=st.integers(1, 4), how=st.sampled_from(['file', 'stdin', 'ask'])))

def run_seed(ctx, c):
    d = ring(17)
    d['opt'] = dict(it=0.1, cool=0.8, how=c['how'], rep=0)
    def f(s):
        d['opt']['seed'] = s
        return run_prog(ctx, d)
    seeds_matter('netcarto-legacy', f, c['seeds'])
    ctx.nontrivial()

OPTS = {'it': [0.05, 0.1, 0.2, 0.4, 0.7, 1], 'cool': [0.3, 0.5, 0.6, 0.7, 0.8, 0.9]}
def run_options(ctx, c):
    R = []
    for v in OPTS[c['opt']]:
        d = ring(37); d['opt'] = dict(it=0.1, cool=0.7, how=c['how'], rep=0, seed=c['seed'])
        d['opt'][c['opt']] = v
        R.append(run_prog(ctx, d))
    check(any(r != R[0] for r in R), 'netcarto-legacy gives the same result for every value %r of %s', OPTS[c['opt']], c['opt'])
    ctx.label(c['opt']); ctx.nontrivial()

def run_bad(ctx, c):
    """Help, and input that cannot be read: a message, a failing exit status, nothing written."""
    files = {'other.dat': 'a b\n'}
    rc, out, err, fs = ctx.run_prog('netcarto_legacy', c['args'], dict(files), 'asan')
    check(rc not in (0, 99) and rc > 0, 'netcarto-legacy %s exits with %r (%s)', ' '.join(c['args']), rc, err[-300:])
    check('AddressSanitizer' not in err and 'runtime error' not in err, 'netcarto-legacy %s: %s', ' '.join(c['args']), err[-300:])
    eq('files afterwards', {k: v.decode() for k, v in fs.items()}, files)
    if '-h' in c['args']: check('Usage' in out + err, 'no usage: %r', out)
    else: check('nowhere' in out + err, 'the message does not name the file: %r', out + err)
    ctx.nontrivial()

@st.composite
def bad(draw):
    a = draw(st.sampled_from([['-h'], ['-f', 'nowhere.dat'], ['-f', 'nowhere/net.dat']]))
    b = draw(st.sampled_from([[], ['-s', '5'], ['-c', '0.9', '-i', '0.5']]))
    return dict(args=b + a)

FACETS = [
    Facet('options', st.fixed_dictionaries(dict(opt=st.sampled_from(sorted(OPTS)), how=st.sampled_from(['file', 'stdin', 'dash', 'ask']), seed=st.integers(1, 10 ** 6))), run_options,
          quick=24, thorough=200, progs=[('netcarto_legacy', 'asan')], rule='every case'),
    Facet('files', case(), run, quick=500, thorough=10000, progs=[('netcarto_legacy', 'asan')], rule='several modules found'),
    Facet('optimum', case(6), run_good, quick=250, thorough=4000, progs=[('netcarto_legacy', 'asan')], rule='positive optimum'),
    Facet('randomised', rnd, run_random, quick=100, thorough=1500, progs=[('netcarto_legacy', 'asan')], rule='several randomisations'),
    Facet('seed', st.fixed_dictionaries(dict(seeds=seed_lists(5), how=st.sampled_from(['file', 'stdin', 'ask']))), run_seed, quick=16, thorough=120, progs=[('netcarto_legacy', 'asan')], rule='every case'),
    Facet('refused', bad(), run_bad, quick=30, thorough=60, progs=[('netcarto_legacy', 'asan')], rule='every case'),
]
