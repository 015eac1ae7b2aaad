"""C38: the recommender and conflict programs print one posterior mean per query, in order."""
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, Violation
from pbt import gen
from .c33 import exact
from .c36 import ok
from pbt.netfile import seeds_matter, seed_lists

PROPERTY = 'C38'
TOL = 0.04      # 10000 samples

@st.composite
def obsfile(draw, K, hi=4, big=None, labels=None):
    n1 = draw(gen.sizes(1, hi, big)); n2 = draw(gen.sizes(1, hi, big))
    if labels: l1, l2 = draw(labels(n1)), draw(labels(n2))
    elif draw(st.booleans()): l1 = draw(gen.labels(n1)); l2 = draw(gen.labels(n2))
    else: l = draw(gen.near_labels(n1 + n2)); l1, l2 = l[:n1], l[n1:]
    rows = [[draw(st.sampled_from(l1)), draw(st.sampled_from(l2)), draw(st.integers(0, K - 1))] for _ in range(draw(st.integers(0, 14)))]
    sep = draw(st.sampled_from([' ', '\t', '  ']))
    text = '\n'.join(sep.join(map(str, r)) for r in rows) + ('\n' if rows and draw(st.booleans()) else '')
    return dict(l1=l1, l2=l2, rows=rows, text=text)

@st.composite
def case(draw, progs, big=None, hi=4, labels=None):
    prog = draw(st.sampled_from(progs))
    K = 2 if prog.endswith('_2') else draw(st.integers(1, 4))
    o = draw(obsfile(K, hi, big, labels))
    pairs = [[a, b] for a in o['l1'] for b in o['l2']]
    q = [draw(st.sampled_from(pairs)) for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3, 5])))]
    sep = draw(st.sampled_from([' ', '\t']))
    return dict(o, prog=prog, K=K, q=q, qtext='\n'.join(sep.join(x) for x in q) + ('\n' if q and draw(st.booleans()) else ''),
                seed=draw(st.integers(1, 10**6)), names=draw(st.sampled_from([['obs.dat', 'que.dat'], ['r', 'q'], ['my_obs-1.txt', 'a.b.c']])),
                again=draw(st.booleans()), fl=draw(st.sampled_from(['opt', 'opt', 'opt', 'asan'])))

def network(rows, q=()):
    i1, i2, E = {}, {}, {}
    for a, b, w in rows: E.setdefault((i1.setdefault(a, len(i1)), i2.setdefault(b, len(i2))), float(w))
    for a, b in q: i1.setdefault(a, len(i1)); i2.setdefault(b, len(i2))
    return i1, i2, [[u, a, w] for (u, a), w in E.items()]

def get(ctx, c, seed, fl):
    prog, K = c['prog'], c['K']
    fo, fq = c['names']
    args = ([K] if not prog.endswith('_2') else []) + [fo, fq, seed]
    rc, out, err, files = ctx.run_prog(prog, args, {fo: c['text'], fq: c['qtext']}, fl, timeout=300)
    ok(prog, rc, err)
    eq('observations file', files[fo].decode(), c['text']); eq('queries file', files[fq].decode(), c['qtext'])
    head, mark, tail = out.partition('>>> RESULTS')
    check(mark, '%s prints no results: %s', prog, out[-300:])
    tok = tail.split(); per = 3 if prog.endswith('_2') else 2 + K
    eq('%s: number of results' % prog, len(tok), per * len(c['q']))
    R = [tok[i:i + per] for i in range(0, len(tok), per)]
    eq('%s: queries in the results' % prog, [r[:2] for r in R], c['q'])
    P = [list(map(float, r[2:])) for r in R]
    for q, p in zip(c['q'], P): check(min(p) >= -1e-9 and max(p) <= 1 + 1e-9, '%s: probabilities %r of %r', prog, p, q)
    if prog.endswith('_2'): return [[1 - p[0], p[0]] for p in P]
    for q, p in zip(c['q'], P): check(abs(sum(p) - 1) < 1e-5 * K, '%s: the probabilities of %r are %r', prog, q, p)
    return P

def run(ctx, c):
    ctx.label(c['prog'])
    S = get(ctx, c, c['seed'], c['fl'])
    if c['again']: eq('results of a second run with the same seed', get(ctx, c, c['seed'], c['fl']), S)
    if not c['q']: return
    i1, i2, E = network(c['rows'], c['q'])
    if len(i1) * len(i2) > 20: ctx.nontrivial(len(E) >= 3); return
    qs = [(i1[a], i2[b]) for a, b in c['q']]
    hide = set(qs)
    b = dict(l1=list(i1), l2=list(i2))
    X = exact('2' if c['prog'].endswith('_2') else 'k', b, c['K'], qs, [e for e in E if (e[0], e[1]) not in hide])
    errs = []
    for k in range(4):
        if k: S = get(ctx, c, c['seed'] + 7919 * k, 'opt')
        e = max((abs(S[i][x] - X[x][i]), 'value %d of query %d: %g, exact %.5f' % (x, i, S[i][x], X[x][i])) for i in range(len(qs)) for x in range(c['K']))
        errs.append(e)
        if e[0] <= TOL: break
    else: raise Violation('%s: results are not the posterior means: %s' % (c['prog'], '; '.join(x[1] for x in errs)))
    if any(len({x[2] for x in c['rows'] if x[:2] == [a, d]}) > 1 for a, d in c['q']): ctx.label('conflicting observations')
    if any((u, a) in hide for u, a, _ in E): ctx.label('query already rated')
    if len(hide) < len(qs): ctx.label('repeated query')
    ctx.nontrivial(c['K'] >= 2 and max(abs(X[k][i] - 1.0 / c['K']) for k in range(c['K']) for i in range(len(qs))) > 0.05)

@st.composite
def ccase(draw):
    o = draw(obsfile(2, labels=draw(st.sampled_from([None, gen.mixed_labels]))))
    share = draw(st.booleans())
    if share:    # the same names on both sides, as in a conflict data set
        ren = {b: a for a, b in zip(o['l1'], o['l2'])}
        o['rows'] = [[a, ren.get(b, b), w] for a, b, w in o['rows']]
        o['text'] = ''.join('%s %s %d\n' % tuple(r) for r in o['rows'])
    return dict(o, seed=draw(st.integers(1, 10**6)), fl=draw(st.sampled_from(['opt', 'opt', 'asan'])))

def crun(ctx, c):
    i1, i2, E = network(c['rows'])
    L1, L2 = list(i1), list(i2)
    pairs = [(u, a) for u in range(len(L1)) for a in range(len(L2))]
    want = sorted([L1[u], L2[a]] for u, a in pairs if L1[u] != L2[a])
    X = exact('2', dict(l1=L1, l2=L2), 2, pairs, E)[1] if pairs else []
    X = {(L1[u], L2[a]): x for (u, a), x in zip(pairs, X)}
    errs = []
    for k in range(4):
        rc, out, err, files = ctx.run_prog('conflict', ['o.dat', c['seed'] + 7919 * k], {'o.dat': c['text']}, c['fl'] if k == 0 else 'opt', timeout=300)
        ok('conflict', rc, err)
        check('link_scores.dat' in files, 'no link_scores.dat')
        R = [r.split() for r in files['link_scores.dat'].decode().splitlines()]
        for r in R: check(len(r) == 3 and -1e-9 <= float(r[2]) <= 1 + 1e-9, 'line %r', r)
        eq('pairs with a score', sorted(r[:2] for r in R), want)
        e = max([(abs(float(r[2]) - X[r[0], r[1]]), 'pair %s %s: %s, exact %.5f' % (r[0], r[1], r[2], X[r[0], r[1]])) for r in R], default=(0, ''))
        errs.append(e)
        if e[0] <= TOL: break
    else: raise Violation('conflict: scores are not the posterior means: %s' % '; '.join(x[1] for x in errs))
    if len(want) < len(pairs): ctx.label('equal labels')
    ctx.nontrivial(len(want) >= 2 and len(E) >= 2)

# ---- the seed
SEEDP = ['multi_recommend_2', 'multi_recommend_k', 'multi_recommend_k_gibbs', 'conflict']
@st.composite
def scase(draw):
    rows = [['u%d' % u, 'i%d' % a, (u + a + (u == 1)) % 2] for u in range(4) for a in range(3) if (u, a) not in ((0, 1), (2, 2))]
    rows = draw(st.permutations(rows))
    q = [['u0', 'i1'], ['u2', 'i2']]
    return dict(prog=draw(st.sampled_from(SEEDP)), K=2, rows=rows, q=q, names=['o.dat', 'q.dat'], text=''.join('%s %s %d\n' % tuple(r) for r in rows),
                qtext=''.join('%s %s\n' % tuple(r) for r in q), seeds=draw(seed_lists(4)))

def srun(ctx, c):
    def f(s):
        if c['prog'] != 'conflict': return get(ctx, c, s, 'opt')
        rc, out, err, files = ctx.run_prog('conflict', ['o.dat', s], {'o.dat': c['text']}, 'opt', timeout=300)
        ok('conflict', rc, err)
        return files['link_scores.dat'].decode()
    seeds_matter(c['prog'], f, c['seeds'])
    ctx.label(c['prog'])
    ctx.nontrivial()

NEED = {'multi_recommend_2': 3, 'multi_recommend_k': 4, 'multi_recommend_k_gibbs': 4, 'conflict': 2}
def usage_run(ctx, c):
    rc, out, err, files = ctx.run_prog(c['prog'], ['x'] * c['n'], {}, 'asan', timeout=60)
    check(rc > 0 and rc not in (97, 1), '%s with %d arguments ends with %r: %s', c['prog'], c['n'], rc, err[-200:])
    check('Use' in out + err, '%s with %d arguments does not show its use', c['prog'], c['n'])
    ctx.nontrivial()

usage = st.sampled_from(sorted(NEED)).flatmap(lambda p: st.integers(0, NEED[p] - 1).map(lambda n: dict(prog=p, n=n)))
both = lambda *ps: [(p, f) for p in ps for f in ('opt', 'asan')]
R = 'a posterior mean 0.05 away from uniform'
FACETS = [
    Facet('usage', usage, usage_run, quick=40, thorough=100, progs=[(p, 'asan') for p in NEED], rule='every case'),
    Facet('metropolis programs', case(['multi_recommend_2', 'multi_recommend_k']), run, quick=80, thorough=1200, progs=both('multi_recommend_2', 'multi_recommend_k'), rule=R),
    Facet('gibbs program', case(['multi_recommend_k_gibbs']), run, quick=60, thorough=800, progs=both('multi_recommend_k_gibbs'), rule=R),
    Facet('labels', case(['multi_recommend_2', 'multi_recommend_k', 'multi_recommend_k_gibbs'], None, 2, gen.mixed_labels), run, quick=80, thorough=1000,
          progs=both('multi_recommend_2', 'multi_recommend_k', 'multi_recommend_k_gibbs'), rule=R),
    Facet('seed', scase(), srun, quick=24, thorough=100, progs=[(p, 'opt') for p in SEEDP], rule='every case'),
    Facet('conflict', ccase(), crun, quick=50, thorough=600, progs=both('conflict'), rule='two pairs and two links'),
]
