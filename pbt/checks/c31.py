"""C31: network scores, partition samples, reconstructions, decorrelation estimates."""
from math import lgamma, log, exp, sqrt
from hypothesis import strategies as st
from pbt.core import Facet, Raw, check, eq
from pbt import gen
from pbt.netcheck import check_net, links_of
from .c27 import counts, pairs_of, energy_sbm, check_net_same, lchoose, start, state_args, check_sbm_state
from .c24 import bargs
from .c32 import ratings
from .c28 import posterior, converge, tv_check, exact

PROPERTY = 'C31'

@st.composite
def net(draw, lo=2, hi=6, big=None, exotic=True):
    return draw(gen.graph(lo, hi, big, exotic=exotic))

# ---- partition sampling
@st.composite
def sample_case(draw):
    return dict(g=draw(net(2, 9, 14)), N=draw(st.integers(1, 12)), burn=draw(st.integers(0, 3)), thin=draw(st.sampled_from([1.0, 0.5, 2.0, 1.7])),
                linC=draw(st.sampled_from([0.0, 1.0])), seed=draw(st.integers(0, 10**6)))

def run_sample(ctx, c):
    g = c['g']; n = g['n']
    r = ctx.ex('missing').call('psample', *gen.net_args(g), c['linC'], c['N'], c['seed'], c['burn'], c['thin'], 1, timeout=60)
    eq('number of partitions', len(r['parts']), c['N'])
    eq('nodes missing, repeated or mislabelled in the sampled partitions', r['bad'], 0)
    check_net_same(ctx, g, r['net'])
    ctx.nontrivial(n >= 3 and len({tuple(gen.canon(p)) for p in r['parts']}) >= 2)

@st.composite
def pdist_case(draw):
    return dict(g=draw(net(3, 5)), linC=draw(st.sampled_from([0.0, 1.0, -1.0])), seed=draw(st.integers(0, 10**6)))

def run_pdist(ctx, c):
    g = c['g']; n = g['n']
    post = posterior(n, lambda p: energy_sbm(n, g['edges'], p, c['linC']))
    def attempt(N, k):
        r = ctx.ex('missing', 'opt').call('psample', *gen.net_args(g), c['linC'], N, c['seed'] + 7919 * k, 10, 1.0, 0, timeout=120)
        return tv_check(r['hist'], post, N)
    converge(attempt, 0.03, (15000, 100000, 400000), 'the distribution of the sampled partitions')
    ctx.nontrivial(len(g['edges']) >= 1)

# ---- network score
@st.composite
def nscore_case(draw):
    g = draw(net(2, 5))
    n = g['n']
    same = draw(st.integers(0, 3)) == 0
    t = g['edges'] if same else [[u, v, 1.0] for u, v in draw(gen.edges(n))]
    return dict(g=g, t=dict(g, edges=t), linC=draw(st.sampled_from([0.0, 0.0, 1.0])), seed=draw(st.integers(0, 10**6)))

def run_nscore(ctx, c):
    g, t = c['g'], c['t']; n = g['n']
    key = lambda E: sorted((min(u, v), max(u, v)) for u, v, _ in E)
    num = den = 0.0
    base = None
    for p, pr in posterior(n, lambda q: energy_sbm(n, g['edges'], q, c['linC'])):
        L, size = counts(n, g['edges'], p); T, _ = counts(n, t['edges'], p)
        a = b = 0.0
        for x, y, r in pairs_of(size):
            lo, lt = L.get((x, y), 0), T.get((x, y), 0)
            k = log(r + 1) + lchoose(r, lo) - log(2 * r + 1)
            a += k - lchoose(2 * r, lo + lt); b += k - lchoose(2 * r, 2 * lo)
        if base is None: base = b
        num += pr * exp(a - base); den += pr * exp(b - base)
    X = num / den
    same = key(g['edges']) == key(t['edges'])
    def attempt(N, k):
        r = ctx.ex('missing', 'opt').call('netscore', *gen.net_args(t), *gen.net_args(g), c['linC'], N, c['seed'] + 7919 * k, timeout=120)
        check_net_same(ctx, g, r['obs'], 'observed network'); check_net_same(ctx, t, r['tar'], 'target network')
        check(r['r'] > 0, 'network score %r', r['r'])
        if same: check(abs(r['r'] - 1) < 1e-9, 'score of a network against itself: %r', r['r'])
        return abs(log(r['r'] / X)), '%.6g, exact %.6g' % (r['r'], X)
    converge(attempt, 0.08, (3000, 30000, 200000), 'the network score')
    ctx.label('same network' if same else 'other network')
    ctx.nontrivial(not same and n >= 3)

# ---- reconstruction
@st.composite
def recon_case(draw, hi=7): return dict(g=draw(net(2, hi)), seed=draw(st.integers(0, 10**6)))

def same_nodes(g, d):
    eq('labels', [x[0] for x in d['nodes']], list(g['labels']))
    es = [(i, e[0]) for i, a in enumerate(d['adj']) for e in a]
    check(len(set(es)) == len(es), 'repeated links: %r', es)
    for u, v in es:
        check(v >= 0 and u != v and (v, u) in set(es), 'link %d-%d is a loop, dangling or one-way', u, v)
    for i, a in enumerate(d['adj']):
        for e in a: check(e[0] == e[1] and (e[2] is None or e[2] == g['labels'][e[0]]), 'link record %r of node %d does not match its node', e, i)
    return {(min(u, v), max(u, v)) for u, v in es}

def run_recon(ctx, c):
    g = c['g']; n = g['n']
    r = ctx.ex('missing').call('recon', Raw('r'), *gen.net_args(g), c['seed'], timeout=120)
    check_net_same(ctx, g, r['net'], 'observed network')
    es = same_nodes(g, r['res'])
    eq('number of links of the reconstruction', len(es), len(g['edges']))
    old = {(min(u, v), max(u, v)) for u, v, _ in g['edges']}
    if es != old: ctx.label('changed')
    if not old: ctx.label('no links')
    if 2 * len(old) == n * (n - 1): ctx.label('complete')
    ctx.nontrivial(n >= 3 and 0 < len(old) < n * (n - 1) // 2)

def run_resample(ctx, c):
    g = c['g']; n = g['n']
    X = exact('m', g, 0.0)
    old = {(min(u, v), max(u, v)) for u, v, _ in g['edges']}
    r = ctx.ex('missing', 'opt').call('recon', Raw('s'), *gen.net_args(g), c['seed'], timeout=120)
    check_net_same(ctx, g, r['net'], 'observed network')
    es = same_nodes(g, r['res'])
    for v in range(n):
        for u in range(v):
            if abs(X[u][v] - 0.5) > 0.03:
                check(((u, v) in es) == (X[u][v] > 0.5), 'pair (%d,%d) with score %.4f is %s', u, v, X[u][v], 'linked' if (u, v) in es else 'not linked')
    e = ctx.ex('missing', 'opt').call('err', Raw('e'), *gen.net_args(g), c['seed'], timeout=120)
    want = sqrt(sum((((u, v) in old) - X[u][v]) ** 2 for v in range(n) for u in range(v)) / (n * (n - 1) / 2))
    check(abs(e['r'] - want) < 0.015, 'block-model error %.5f, exact %.5f', e['r'], want)
    check_net_same(ctx, g, e['net'])
    ctx.nontrivial(n >= 3 and len(es) >= 1)

# ---- structure score: (mean randomised error - error) / standard deviation
# Networks whose degrees allow two structures only, the given one being the rarer; a fraction p of randomised networks with the
# other structure makes the score +-sqrt(p / (1 - p)), p a multiple of 1 / repetitions.
RARE = [(5, [(0, 1), (2, 3), (2, 4), (3, 4)]), (5, [(0, 3), (1, 3), (2, 3), (0, 4), (1, 4), (2, 4)]),
        (6, [(0, 1), (0, 2), (1, 2), (3, 4), (3, 5), (4, 5)]), (6, [(0, 1), (2, 3), (2, 4), (3, 4), (2, 5), (3, 5), (4, 5)]),
        (6, [(0, 4), (1, 4), (2, 4), (3, 4), (0, 5), (1, 5), (2, 5), (3, 5)])]

@st.composite
def struct_case(draw):
    n, es = draw(st.sampled_from(RARE))
    p = draw(st.permutations(list(range(n))))
    return dict(g=dict(n=n, labels=gen.simple_labels(n), edges=[[p[u], p[v], 1.0] for u, v in es]), rep=draw(st.integers(4, 6)), seed=draw(st.integers(0, 10**6)))

def run_struct(ctx, c):
    g = c['g']
    r = ctx.ex('missing', 'opt').call('err', Raw('s'), *gen.net_args(g), c['seed'], c['rep'], timeout=120)
    check_net_same(ctx, g, r['net'], 'observed network')
    s = r['r']
    check(s == s and s > 0, 'structure score %r of a network with more structure than its randomisations', s)
    k = s * s / (1 + s * s) * c['rep']
    check(round(k) >= 1 and abs(k - round(k)) < 0.3, 'structure score %r: no mix of the two possible networks gives it (%.3f of %d)', s, k, c['rep'])
    ctx.label('mixed' if round(k) < c['rep'] else 'all different')
    ctx.nontrivial(round(k) < c['rep'])

# ---- decorrelation
@st.composite
def decor_case(draw):
    n = draw(st.one_of(st.integers(2, 12), st.integers(2, 24)))
    g = dict(n=n, labels=gen.simple_labels(n), edges=[[u, v, 1.0] for u, v in draw(gen.edges(n))])
    return dict(g=g, mem=draw(start(n)), seed=draw(st.integers(0, 10**6)), linC=draw(st.sampled_from([0.0, 0.0, 1.0])))

def run_decor(ctx, c):
    g = c['g']; n = g['n']
    r = ctx.ex('missing').call('decor', *state_args(c), c['linC'], 0.5, 0.5, 100, 100, 5, timeout=60)
    check(1 <= r['decor'] <= 10**6, 'decorrelation step %r', r['decor'])
    check_sbm_state(g, r['state'], 'after estimating the decorrelation step', lambda m: energy_sbm(n, g['edges'], m, c['linC']))
    ctx.label('under 20 nodes' if n < 20 else '20 nodes or more')
    ctx.nontrivial(n >= 3 and len(g['edges']) >= 1)

# The step: the mean of the estimates announced, those more than two standard deviations away discarded; the slower of the two sets.
def check_step(ctx, est):
    step, E = est[0], est[1:]
    check(step >= 1, 'decorrelation step %r', step)
    if len(E) < 2 or len({len(x) for x in E}) != 1 or any(not x < 1e6 for e in E for x in e):
        ctx.label('estimates not announced'); return False
    cols = sorted(zip(*E), key=sum)
    if len(cols) == 2 and abs(sum(cols[0]) - sum(cols[1])) < 1e-4 * sum(cols[1]): ctx.label('tie'); return False
    x = cols[-1]; m = sum(x) / len(x); sd = sqrt(max(0.0, sum(v * v for v in x) / len(x) - m * m))
    if any(abs(abs(v - m) - 2 * sd) < 1e-4 * (1 + m) and sd > 1e-4 * m for v in x): ctx.label('borderline'); return False
    keep = [v for v in x if sd <= 1e-4 * m or abs(v - m) <= 2 * sd]
    want = max(1.0, sum(keep) / len(keep))
    check(abs(step - want) <= 1.001, 'decorrelation step %d; the estimates %s have mean %.6g without those beyond two standard deviations', step, ' '.join('%.6g' % v for v in x), want)
    if len(keep) < len(x): ctx.label('estimate discarded')
    if want >= 3: ctx.label('step of three or more')
    return max(x) > min(x)

@st.composite
def est_case(draw):
    kind = draw(st.sampled_from(['m', 'K', 'a', 'o', 'd', '2', 'k', '2', 'k']))
    c = dict(kind=kind, seed=draw(st.integers(0, 10**6)), linC=draw(st.sampled_from([0.0, 0.0, 1.0])))
    if kind in '2k':
        K = 2 if kind == '2' else draw(st.integers(1, 4))
        b = draw(ratings(K, 6, 14)); return dict(c, K=K, b=b, m1=draw(start(len(b['l1']))), m2=draw(start(len(b['l2']))))
    n = draw(st.one_of(st.integers(2, 12), st.integers(2, 24)))
    K = 1
    if kind == 'K':
        n = max(n, 3); K = draw(st.integers(1, 4))   # the several-valued estimate of two nodes is not defined (see C27)
    g = dict(n=n, labels=gen.simple_labels(n), edges=[[u, v, float(draw(st.integers(0, K - 1))) if kind == 'K' else 1.0] for u, v in draw(gen.edges(n))])
    return dict(c, K=K, g=g, mem=draw(start(n)))

def run_est(ctx, c):
    k = c['kind']
    if k in '2k':
        b = c['b']
        r = ctx.ex('recommend').call('steps', Raw(k), c['K'], *bargs(b), c['m1'], c['m2'], c['seed'], 100, 100, 100, 1, [[Raw('d'), 1]], timeout=60)
    elif k == 'm': r = ctx.ex('missing').call('decor', *state_args(c), c['linC'], 0.5, 0.5, 100, 100, 5, timeout=60)
    elif k == 'K': r = ctx.ex('missing').call('ksteps', *state_args(c), c['K'], 100, 1, [[Raw('d'), 1]], timeout=60)
    else: r = ctx.ex('od' if k == 'd' else 'mb').call('steps', Raw(k), *state_args(c), c['linC'], 100, 100, 1, [[Raw('D' if k == 'o' else 'd'), 1]], timeout=60)
    ctx.label('sampler ' + k)
    ctx.nontrivial(check_step(ctx, r['est']))

def decay_cases():
    y = st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5]))
    free = st.fixed_dictionaries(dict(n=st.integers(2, 500), x1=st.integers(1, 20), dx=st.integers(1, 80), y1=y, y2=y))
    model = st.fixed_dictionaries(dict(n=st.integers(2, 500), x1=st.integers(1, 20), dx=st.integers(5, 80), a=st.floats(0.0, 0.95), f=st.floats(0.1, 2.0)))
    return st.one_of(free, model)

def run_decay(ctx, c):
    x1, x2 = float(c['x1']), float(c['x1'] + c['dx'])
    b = None
    if 'a' in c:
        b = c['f'] * x1 + 0.3
        y1, y2 = [c['a'] + (1 - c['a']) * exp(-x / b) for x in (x1, x2)]
    else: y1, y2 = c['y1'], c['y2']
    r = ctx.ex('missing').call('decay', c['n'], x1, y1, x2, y2)['r']
    if y1 == y2 == 1: check(abs(r - c['n'] ** 0.5) < 1e-9, 'decay %r for partitions which do not change; the initial guess is a solution', r)
    if r == -1:
        ctx.label('no solution found'); return
    check(r == r, 'decay is NaN')
    if r != 0 and r > -1e3 and max(-x1 / r, -x2 / r) < 30:
        e1, e2 = exp(-x1 / r), exp(-x2 / r)
        # y = a + (1 - a) e  for both points, whatever a
        res = (1 - y1) * (1 - e2) - (1 - y2) * (1 - e1)
        check(abs(res) < 3e-6 * max(1.0, e1, e2), 'decay %r through (%g, %r) and (%g, %r) does not satisfy the exponential (residual %g)', r, x1, y1, x2, y2, res)
    ctx.nontrivial(b is not None)

M = [('missing', 'opt')]
FACETS = [
    Facet('sampling', sample_case(), run_sample, quick=400, thorough=8000, exes=['missing'], rule='three or more nodes and two or more different partitions sampled'),
    Facet('sampled distribution', pdist_case(), run_pdist, quick=240, thorough=3000, exes=M, rule='three or more nodes and a link'),
    Facet('network score', nscore_case(), run_nscore, quick=240, thorough=3000, exes=M, rule='different target network on three or more nodes'),
    Facet('reconstruction', recon_case(), run_recon, quick=64, thorough=1000, exes=['missing'], rule='three or more nodes, neither empty nor complete'),
    Facet('block-model network', recon_case(6), run_resample, quick=120, thorough=1500, exes=M, rule='three or more nodes and a predicted link'),
    Facet('structure score', struct_case(), run_struct, quick=32, thorough=500, exes=M, rule='randomisations of both structures'),
    Facet('decorrelation', decor_case(), run_decor, quick=400, thorough=8000, exes=['missing'], rule='three or more nodes and a link'),
    Facet('estimates', est_case(), run_est, quick=800, thorough=16000, exes=['missing', 'mb', 'od', 'recommend'], rule='estimates which differ'),
    Facet('decay', decay_cases(), run_decay, quick=1500, thorough=30000, exes=['missing'], rule='points on an exponential'),
]
