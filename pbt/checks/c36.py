"""C36: the link-reliability programs report every pair once, with its posterior score."""
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, Violation
from pbt import gen
from pbt.netfile import netfile, seeds_matter, seed_lists
from .c27 import energy_mb, energy_k
from .c28 import posterior, average, exact
from .c29 import predict

PROPERTY = 'C36'
TOL = 0.04      # 10000 samples

PROGS = {       # program -> (family, where the scores are)
    'reliability_links': ('m', 'split'), 'reliability_links_gibbs': ('m', 'stdout'), 'reliability_links_gibbs_sparse': ('s', 'stdout'),
    'reliability_links_mb': ('a', '.AND_scores'), 'reliability_links_mb_gibbs': ('a', '.AND_scores'),
    'reliability_links_mb_OR': ('o', '.OR_scores'), 'reliability_links_mb_gibbs_OR': ('o', '.OR_scores'),
    'only_degeneration_mb': ('d', '.scores'), 'only_degeneration_mb_gibbs': ('d', '.scores'),
}
METROPOLIS = [p for p in PROGS if 'gibbs' not in p]
GIBBS = [p for p in PROGS if 'gibbs' in p]

def expected(fam, g):
    n, E = g['n'], g['edges']
    if fam in 'ms': return exact(fam, g, 0.0)
    return average(n, E, posterior(n, lambda p: energy_mb(fam, n, E, p, 0.0)), predict(fam))

def ok(name, rc, err): check(rc == 0, '%s exits with %d: %s', name, rc, err[-300:])

def rows(text): return [x.split() for x in text.splitlines()]

def get(ctx, prog, c, seed, flavour):
    fam, where = PROGS[prog]
    rc, out, err, files = ctx.run_prog(prog, [c['file'], seed], {c['file']: c['text']}, flavour, timeout=200)
    ok(prog, rc, err)
    if where == 'split':
        for f in ('missing.dat', 'spurious.dat'): check(f in files, '%s did not write %s', prog, f)
        parts = [(0, rows(files['missing.dat'].decode())), (1, rows(files['spurious.dat'].decode()))]
    elif where == 'stdout': parts = [(None, rows(out))]
    else:
        check(c['file'] + where in files, '%s did not write %s', prog, c['file'] + where)
        parts = [(None, rows(files[c['file'] + where].decode()))]
    g = c['g']; idx = {l: i for i, l in enumerate(g['labels'])}
    links = {frozenset(e[:2]) for e in g['edges']}
    S = {}
    for linked, R in parts:
        for r in R:
            check(len(r) == 3 and r[1] in idx and r[2] in idx, '%s: line %r', prog, r)
            k = frozenset((idx[r[1]], idx[r[2]]))
            check(len(k) == 2 and k not in S, '%s: the pair %s %s is reported twice, or is no pair', prog, r[1], r[2])
            if linked is not None: check((k in links) == bool(linked), '%s: the pair %s %s is in the wrong file', prog, r[1], r[2])
            S[k] = float(r[0])
            check(-1e-9 <= S[k] <= 1 + 1e-9, '%s: score %s of %s %s', prog, *r)
    want = {frozenset((u, v)) for u in range(g['n']) for v in range(u)}
    missing = want - set(S)
    check(not missing, '%s: no score for the pairs %r', prog, [sorted(x) for x in missing])
    eq('%s: input file' % prog, files[c['file']].decode(), c['text'])
    return S

def run(ctx, c):
    prog = c['prog']; g = c['g']; fam = PROGS[prog][0]
    S = get(ctx, prog, c, c['seed'], c['fl'])
    if c['again']: eq('scores from a second run with the same seed', get(ctx, prog, c, c['seed'], c['fl']), S)
    ctx.label(prog)
    if g['n'] > 6: return
    X = expected(fam, g)
    errs = []
    for k in range(4):
        if k: S = get(ctx, prog, c, c['seed'] + 7919 * k, 'opt')
        e = max((abs(s - X[min(p)][max(p)]), 'pair %r: %g, exact %.5f' % (sorted(p), s, X[min(p)][max(p)])) for p, s in S.items())
        errs.append(e)
        if e[0] <= TOL: break
    else: raise Violation('%s: scores are not the posterior averages: %s' % (prog, '; '.join(x[1] for x in errs)))
    flat = [X[u][v] for u in range(g['n']) for v in range(u)]
    ctx.nontrivial(g['n'] >= 3 and max(flat) - min(flat) > 0.05)

@st.composite
def case(draw, progs, big=12, hi=6, labels=None):
    prog = draw(st.sampled_from(progs))
    s = 'sparse' in prog
    c = draw(netfile(3 if s else 2, hi, big, min_edges=1 if s else 0, labels=labels))
    g = c['g']
    if s and len(g['edges']) * 2 == g['n'] * (g['n'] - 1):   # the sparse prior needs a pair without link
        g['edges'] = g['edges'][:-1]
        if not g['edges']: g['edges'] = [[0, 1, 1.0]]
        c['text'] = ''.join('%s %s\n' % (g['labels'][u], g['labels'][v]) for u, v, _ in g['edges']) + ''.join('%s %s\n' % (l, l) for l in g['labels'])
    return dict(c, prog=prog, seed=draw(st.integers(1, 10**6)), file=draw(st.sampled_from(['net.dat', 'a', 'my-net_2.txt'])), again=draw(st.booleans()), fl=draw(st.sampled_from(['opt', 'opt', 'opt', 'asan'])))

@st.composite
def kcase(draw):
    K = draw(st.integers(1, 4))
    c = draw(netfile(2, 5, None, labels=draw(st.sampled_from([gen.labels, gen.mixed_labels])), weights=st.integers(0, K - 1).map(float)))
    return dict(c, K=K, seed=draw(st.integers(1, 10**6)), fl=draw(st.sampled_from(['opt', 'opt', 'asan'])))

def kget(ctx, c, seed, fl):
    g, K = c['g'], c['K']
    rc, out, err, files = ctx.run_prog('reliability_links_k', [K, 'net.dat', seed], {'net.dat': c['text']}, fl, timeout=200)
    ok('reliability_links_k', rc, err)
    idx = {l: i for i, l in enumerate(g['labels'])}
    links = {frozenset(e[:2]) for e in g['edges']}
    S = {}
    for fn, linked in (('observed_k.dat', True), ('unobserved_k.dat', False)):
        check(fn in files, '%s was not written', fn)
        for r in rows(files[fn].decode()):
            check(len(r) == 2 + K and r[0] in idx and r[1] in idx, 'line %r of %s', r, fn)
            k = frozenset((idx[r[0]], idx[r[1]]))
            check(len(k) == 2 and k not in S, 'the pair %s %s is reported twice, or is no pair', r[0], r[1])
            check((k in links) == linked, 'the pair %s %s is in %s', r[0], r[1], fn)
            S[k] = list(map(float, r[2:]))
            check(abs(sum(S[k]) - 1) < 1e-4 and min(S[k]) >= 0, 'probabilities %r of %s %s', S[k], r[0], r[1])
    eq('reported pairs', len(S), g['n'] * (g['n'] - 1) // 2)
    return S

def krun(ctx, c):
    g, K = c['g'], c['K']; n, E = g['n'], g['edges']
    X = {frozenset((u, v)): [0.0] * K for u in range(n) for v in range(u)}
    for p, pr in posterior(n, lambda q: energy_k(n, E, q, K)):
        T = {}
        for u, v, w in E: T.setdefault(frozenset((p[u], p[v])), [0] * K)[int(w)] += 1
        for k in X:
            u, v = k
            t = T.get(frozenset((p[u], p[v])), [0] * K)
            for x in range(K): X[k][x] += pr * (t[x] + 1) / (sum(t) + K)
    errs = []
    for i in range(4):
        S = kget(ctx, c, c['seed'] + 7919 * i, c['fl'] if i == 0 else 'opt')
        e = max(((abs(S[k][x] - X[k][x]), 'pair %r value %d: %g, exact %.5f' % (sorted(k), x, S[k][x], X[k][x])) for k in X for x in range(K)))
        errs.append(e)
        if e[0] <= TOL: break
    else: raise Violation('reliability_links_k: probabilities are not the posterior averages: %s' % '; '.join(x[1] for x in errs))
    ctx.nontrivial(K >= 2 and len(E) >= 2)

def rec_run(ctx, c):
    g = c['g']
    rc, out, err, files = ctx.run_prog('reliability_reconstruct', ['net.dat', c['seed']], {'net.dat': c['text']}, c['fl'], timeout=300)
    ok('reliability_reconstruct', rc, err)
    check('net_reconstructed.dat' in files, 'no reconstruction was written')
    R = rows(files['net_reconstructed.dat'].decode())
    seen = set()
    for r in R:
        check(len(r) == 2 and all(x in g['labels'] for x in r), 'line %r of the reconstruction', r)
        check(r[0] != r[1], 'the reconstruction links %s to itself', r[0])
        k = frozenset(r)
        check(k not in seen, 'the reconstruction links %s and %s twice', *r)
        seen.add(k)
    ctx.nontrivial(len(g['edges']) >= 2)

@st.composite
def reccase(draw):
    return dict(draw(netfile(2, 5, labels=draw(st.sampled_from([gen.labels, gen.mixed_labels])))), seed=draw(st.integers(1, 10**6)), fl='opt')

# ---- the seed: five nodes, four links (a tree and a triangle with a tail): the scores are averages over a sample
SEEDP = list(PROGS) + ['reliability_links_k']
@st.composite
def scase(draw):
    E = draw(st.sampled_from([[(0, 1), (1, 2), (2, 3), (3, 4)], [(0, 1), (1, 2), (0, 2), (3, 4)], [(0, 1), (1, 2), (2, 3), (1, 4)]]))
    prog = draw(st.sampled_from(SEEDP))
    lab = draw(st.permutations('abcde'))
    k = prog.endswith('_k')
    text = ''.join('%s %s%s\n' % (lab[u], lab[v], ' %d' % (i % 2) if k else '') for i, (u, v) in enumerate(E))
    return dict(prog=prog, K=2, file='net.dat', text=text, g=dict(n=5, labels=lab, edges=[[u, v, 1.0] for u, v in E]), seeds=draw(seed_lists(3)))

def srun(ctx, c):
    f = (lambda s: kget(ctx, c, s, 'opt')) if c['prog'].endswith('_k') else (lambda s: get(ctx, c['prog'], c, s, 'opt'))
    seeds_matter(c['prog'], f, c['seeds'])
    ctx.label(c['prog'])
    ctx.nontrivial()

NEED = {p: 2 for p in PROGS}
NEED.update(reliability_links_k=3, reliability_reconstruct=2)
def usage_run(ctx, c):
    rc, out, err, files = ctx.run_prog(c['prog'], ['x'] * c['n'], {}, 'asan', timeout=60)
    check(rc > 1 or rc == 1, '%s with %d arguments ends with %r: %s', c['prog'], c['n'], rc, err[-200:])
    check(rc != 97 and rc != 1 or not err, '%s with %d arguments: %s', c['prog'], c['n'], err[-300:])
    check('Use' in out or 'Use' in err or 'sage' in out + err, '%s with %d arguments does not show its use', c['prog'], c['n'])
    ctx.nontrivial()

usage = st.sampled_from(sorted(NEED)).flatmap(lambda p: st.integers(0, NEED[p] - 1).map(lambda n: dict(prog=p, n=n)))
ALL = [(p, f) for p in PROGS for f in ('opt', 'asan')]
R = 'three or more nodes whose exact scores differ by over 0.05'
FACETS = [
    Facet('usage', usage, usage_run, quick=60, thorough=200, progs=[(p, 'asan') for p in NEED], rule='every case'),
    Facet('metropolis programs', case(METROPOLIS), run, quick=120, thorough=1500, progs=[x for x in ALL if x[0] in METROPOLIS], rule=R),
    Facet('gibbs programs', case(GIBBS, None), run, quick=80, thorough=1000, progs=[x for x in ALL if x[0] in GIBBS], rule=R),
    Facet('labels', case(METROPOLIS + GIBBS, None, 3, gen.mixed_labels), run, quick=120, thorough=2000, progs=ALL, rule=R),
    Facet('several-valued links', kcase(), krun, quick=60, thorough=800, progs=[('reliability_links_k', f) for f in ('opt', 'asan')], rule='two values and two links'),
    Facet('seed', scase(), srun, quick=40, thorough=200, progs=[(p, 'opt') for p in SEEDP], rule='every case'),
    Facet('reconstruction', reccase(), rec_run, quick=24, thorough=200, progs=[('reliability_reconstruct', 'opt')], rule='two or more links'),
]
