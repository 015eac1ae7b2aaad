import math
from hypothesis import strategies as st
from pbt import gen
from pbt.core import Facet, check, eq
PROPERTY = 'C11'

nums = st.one_of(st.integers(-1000, 1000).map(float), st.floats(-1e6, 1e6, allow_subnormal=False))
def run_vec(ctx, d):
    r = ctx.ex('graph').call('vec', len(d), d)
    n = len(d); mu = math.fsum(d) / n
    sc = max(abs(x) for x in d) + 1e-300
    check(abs(r['mean'] - mu) <= 1e-12 * sc * n, 'mean %r, expected %r', r['mean'], mu)
    sd = math.sqrt(math.fsum((x - mu) ** 2 for x in d) / n)
    # computed from raw moments: absolute error up to sqrt(eps) of the scale
    check(abs(r['std'] - sd) <= 1e-6 * sc or abs(r['std'] ** 2 - sd ** 2) <= 1e-12 * sc * sc * n, 'deviation %r, expected %r', r['std'], sd)
    eq('max', r['max'], max(d)); eq('min', r['min'], min(d)); eq('data', r['d'], d)
    ctx.nontrivial(n >= 3)

@st.composite
def comb(draw):
    k = draw(st.integers(0, 2))
    if k == 0: return [0, draw(st.integers(0, 20)), 0]
    a = draw(st.one_of(st.integers(0, 30), st.integers(0, 60), st.integers(0, 400)))
    return [k, a, draw(st.integers(0, a + (3 if k == 1 else 0)))]
def run_comb(ctx, c):
    k, a, b = c
    v = ctx.ex('graph').call('comb', k, a, *([b] if k else []))['v']
    if k == 0: eq('%d!' % a, v, math.factorial(a))
    else:
        w = math.comb(a, b)
        if k == 1:
            if w < 10 ** 12: eq('C(%d,%d)' % (a, b), v, float(w))
            else: eq('C(%d,%d)' % (a, b), v, float(w), 1e-11)
        else: check(abs(v - (math.log(w))) <= 1e-10 * max(1, math.log(w)), 'log C(%d,%d) = %r', a, b, v)
    ctx.nontrivial(k == 0 and a > 2 or k and 1 < b < a - 1)

@st.composite
def tables(draw):
    size = draw(st.one_of(st.integers(1, 12), st.integers(1, 200)))
    q = []
    for _ in range(draw(st.integers(1, 12))):
        r = draw(st.one_of(st.integers(0, size + 3), st.sampled_from([size - 1, size, size + 1]), st.integers(0, 3000)))
        q.append([r, draw(st.integers(0, r))])
    return dict(size=size, q=q, x=draw(st.sampled_from([0.5, 1.0, 1.7, 3.0, 0.01])))
def run_tables(ctx, c):
    r = ctx.ex('graph').call('tables', c['size'], len(c['q']), c['x'], c['q'])
    for (a, b), (lc, lc2, lg, lf, lG) in zip(c['q'], r['q']):
        w = math.lgamma(a + 1) - math.lgamma(b + 1) - math.lgamma(a - b + 1)
        t = 1e-9 * max(1.0, math.lgamma(a + 1))
        check(abs(lc - w) <= t, 'log-binomial table at (%d,%d), size %d: %r, expected %r', a, b, c['size'], lc, w)
        check(abs(lc2 - w) <= t, 'log-binomial table second lookup at (%d,%d): %r, expected %r', a, b, lc2, w)
        eq('log table at %d (size %d)' % (a, c['size']), lg, math.log(a) if a else -math.inf, 1e-12)
        eq('log-factorial table at %d (size %d)' % (a, c['size']), lf, math.lgamma(a + 1), 1e-10)
        eq('log-gamma table at %d (size %d)' % (a, c['size']), lG, math.lgamma(a + c['x']), 1e-9)
    h = 0.0
    for i, x in enumerate(r['harm']):
        if i: h += 1.0 / i
        eq('harmonic number %d' % i, x, h, 1e-12)
    if any(a >= c['size'] for a, b in c['q']): ctx.label('outside table')
    if any(a == c['size'] for a, b in c['q']): ctx.label('at boundary')
    ctx.nontrivial(any(a >= c['size'] for a, b in c['q']) and any(a < c['size'] for a, b in c['q']))

ops = gen.lists(st.tuples(st.sampled_from([0] * 8 + [1, 1, 1, 1, 2, 2, 3] + [4] * 8 + [5] * 4 + [6, 6, 7, 8, 9]), st.integers(1, 99)), 60)
def run_cont(ctx, c):
    r = ctx.ex('graph').call('container', len(c), [list(x) for x in c])['r']
    s, q, mx = [], [], 0
    for i, ((o, v), got) in enumerate(zip(c, r)):
        ret = 0
        if o == 0: s.append(v)
        elif o == 1: ret = s.pop() if s else 0
        elif o == 2: ret = s[-1] if s else 0
        elif o in (3, 8): s = []
        elif o == 4: q.append(v)
        elif o == 5: ret = q.pop(0) if q else 0
        elif o == 6: ret = q[0] if q else 0
        else: q = []
        mx = max(mx, len(s), len(q))
        eq('step %d (op %d): [value, stack empty, length, queue empty, length]' % (i, o), got, [ret, int(not s), len(s), int(not q), len(q)])
    ctx.nontrivial(mx >= 3)

lines = st.lists(st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=60), max_size=30)
@st.composite
def linecase(draw): return dict(lines=draw(lines), nl=draw(st.booleans()))
def run_lines(ctx, c):
    t = '\n'.join(c['lines'])
    if c['nl'] and c['lines']: t += '\n'
    want = t.count('\n') + (1 if t and not t.endswith('\n') else 0)
    eq('lines of %r' % t, ctx.ex('graph').call('lines', t)['v'], want)
    ctx.nontrivial(want >= 2)

@st.composite
def alloc(draw): return [draw(st.integers(1, 12)), draw(st.integers(1, 12))]
def run_alloc(ctx, c):
    r = ctx.ex('graph').call('alloc', c[0], c[1])
    eq('matrix contents', r['ok'], 1)
    rows = [list(map(int, l.split())) for l in r['print'].strip('\n').splitlines()]
    eq('printed matrix', rows, [[i + 1, j + 1, i * c[1] + j] for i in range(c[0]) for j in range(c[1])])
    ctx.nontrivial(c[0] > 1 and c[1] > 1)

@st.composite
def geom(draw): return dict(p=draw(st.sampled_from([1.0, 0.9, 0.5, 0.2, 0.1])), seed=draw(st.integers(0, 2 ** 31)))
def run_geom(ctx, c):
    N = 20000; p = c['p']
    r = ctx.ex('graph').call('geom', p, N, c['seed'])
    for k in range(11):
        e = p * (1 - p) ** k
        check(abs(r['h'][k] - N * e) <= 6.5 * math.sqrt(N * e * (1 - e)) + 3, 'geometric(%g): value %d drawn %d times in %d, probability %g', p, k, r['h'][k], N, e)
    ctx.nontrivial(p < 1)

FACETS = [
    Facet('vec', st.lists(nums, min_size=1, max_size=40), run_vec, quick=8000, thorough=90000, exes=['graph'], rule='vectors of 1-40 numbers; non-trivial: >=3'),
    Facet('comb', comb(), run_comb, quick=8000, thorough=40000, exes=['graph'], rule='factorials to 20, binomials to 400; non-trivial: interior arguments'),
    Facet('tables', tables(), run_tables, quick=8000, thorough=40000, exes=['graph'], rule='table sizes 1-200, arguments around and beyond the size; non-trivial: both sides of the boundary'),
    Facet('containers', ops, run_cont, quick=9000, thorough=60000, exes=['graph'], rule='operation sequences on a stack and a queue against lists; non-trivial: some container reaches length 3'),
    Facet('lines', linecase(), run_lines, quick=1500, thorough=20000, exes=['graph'], rule='text files with and without final newline; non-trivial: >=2 lines'),
    Facet('alloc', alloc(), run_alloc, quick=400, thorough=4000, exes=['graph'], rule='matrix allocation and printing; non-trivial: both dimensions >1'),
    Facet('geom', geom(), run_geom, quick=100, thorough=1500, exes=['graph'], rule='20000 geometric draws per case, every value within 6.5 sigma; non-trivial: p<1'),
]
