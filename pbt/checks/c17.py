import math
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close, Raw
from pbt import gen

PROPERTY = 'C17'

@st.composite
def edge_list(draw, lo=1, hi=9, big=16, connected=False):
    g = draw(gen.graph(lo, hi, big, weighted=True, connected=connected))
    return g['n'], g['edges']

@st.composite
def bip_edges(draw, hi=8, teams=8, weighted=None):
    """Distinct (actor, team) pairs covering actors 0..n-1 and teams 0..t-1; weights."""
    n = draw(st.integers(1, gen.scaled(hi))); t = draw(st.integers(1, gen.scaled(teams)))
    kind = draw(st.sampled_from(['list', 'list', 'dense', 'single']))
    if kind == 'dense':
        drop = set(draw(st.lists(st.integers(0, n * t), max_size=n)))
        es = [(u, a) for u in range(n) for a in range(t) if u * t + a not in drop]
    elif kind == 'single':
        es = [(u, draw(st.integers(0, t - 1))) for u in range(n)]
    else:
        es = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, t - 1)), min_size=1, max_size=3 * n, unique=True))
    es = draw(st.permutations(es)) if len(es) <= 30 else es
    if not es: es = [(0, 0)]
    # renumber so that every id below the largest is used
    mu, ma = {}, {}
    for u, a in sorted(es): mu.setdefault(u, len(mu)); ma.setdefault(a, len(ma))
    es = [(mu[u], ma[a]) for u, a in es]
    w = draw(st.booleans()) if weighted is None else weighted
    ws = draw(gen.weights(len(es))) if w else [1.0] * len(es)
    return dict(n=len(mu), t=len(ma), edges=[[u, a, x] for (u, a), x in zip(es, ws)])

def projection(n, t, edges):
    """(A, k): A[(i,j)] = sum_a w_ia w_ja / sum_a S_a (S_a - S_a/d_a), k_i = sum_a w_ia / sum_a S_a"""
    S, d, k = [0.0] * t, [0] * t, [0.0] * n
    byt = [[] for _ in range(t)]
    for u, a, w in edges:
        S[a] += w; d[a] += 1; k[u] += w; byt[a].append((u, w))
    tot = sum(S); z = sum(x * (x - x / y) for x, y in zip(S, d) if y)
    A = {}
    for a in range(t):
        for u, w in byt[a]:
            for v, x in byt[a]:
                if u != v: A[(u, v)] = A.get((u, v), 0.0) + w * x
    return {e: x / z for e, x in A.items()}, [x / tot for x in k]

def matrix(c):
    """(A, k): the normalised weights and node strengths of a case, plain or bipartite."""
    if c['norm'] == 2: return projection(c['n'], 1 + max(e[1] for e in c['edges']), c['edges'])
    k, z = strengths(c)
    A = {}
    for u, v, w in c['edges']: A[(u, v)] = A[(v, u)] = w / z
    return A, k

@st.composite
def history(draw, max_ops=25, ops='CCCCGGSSAZY', bip=True):
    if bip and draw(st.sampled_from([0, 0, 1])):
        c = draw(bip_edges(9, 9)); n, es = c['n'], c['edges']; M = n; norm = 2
    else:
        n, es = draw(edge_list())
        M = draw(st.one_of(st.just(n), st.integers(1, n + 2), st.integers(1, max(1, n // 2))))
        norm = draw(st.sampled_from([1, 1, 0])) if es else 0
    steps = []
    for _ in range(draw(st.integers(1, gen.scaled(max_ops)))):
        op = draw(st.sampled_from(ops))
        if op == 'C': a = [draw(st.integers(0, n - 1)), draw(st.integers(0, M - 1))]
        elif op == 'G': a = [draw(st.integers(0, M - 1)), draw(st.integers(0, M - 1))]
        elif op == 'S': a = [draw(st.integers(0, M - 1))]
        elif op == 'A': a = [draw(st.integers(0, M - 1)), draw(st.sampled_from([1.0, 0.1])), draw(st.sampled_from([1e-4, 1e-2])), draw(st.integers(0, 20))]
        else: a = []
        steps.append([op] + a)
    return dict(n=n, M=M, edges=es, norm=norm, seed=draw(st.integers(0, 10 ** 6)), steps=steps)

def call(ctx, c):
    return ctx.ex('partition').call('ops', c['n'], c['M'], len(c['edges']), [(u, v, float(w)) for u, v, w in c['edges']],
                                    c['norm'], c['seed'], len(c['steps']), [[Raw(s[0])] + s[1:] for s in c['steps']])

def strengths(c):
    W = 2 * sum(e[2] for e in c['edges'])
    z = W if c['norm'] else 1.0
    k = [0.0] * c['n']
    for u, v, w in c['edges']:
        k[u] += w; k[v] += w
    return [(x / z if z else float('nan')) for x in k], z

def members(s): return [frozenset(m[3]) for m in s['modules']]

def check_state(s, n, what, k=None, M=None):
    """The invariants of a partition; returns the membership vector."""
    eq(what + ': number of nodes', s['N'], n)
    if M is not None: eq(what + ': number of modules', s['M'], M)
    eq(what + ': node ids', [x[0] for x in s['nodes']], list(range(n)))
    mem = [x[1] for x in s['nodes']]
    if k is not None:
        check(all(close(a[2], b, 1e-9) for a, b in zip(s['nodes'], k)), '%s: node strengths %r, expected %r', what, [x[2] for x in s['nodes']], k)
    eq(what + ': modules', len(s['modules']), s['M'])
    seen = []
    for i, (mid, size, strength, fwd, bwd) in enumerate(s['modules']):
        eq('%s: id of module %d' % (what, i), mid, i)
        eq('%s: members of module %d' % (what, i), sorted(fwd), [u for u in range(n) if mem[u] == i])
        eq('%s: backward list of module %d' % (what, i), bwd[::-1], fwd)
        eq('%s: size of module %d' % (what, i), size, len(fwd))
        tot = sum(s['nodes'][u][2] for u in fwd)
        check(math.isnan(tot) or abs(tot - strength) < 1e-9 * max(1, abs(tot)), '%s: strength of module %d is %r, its members add up to %r', what, i, strength, tot)
        seen += fwd
    eq(what + ': nodes in the modules', sorted(seen), list(range(n)))
    eq(what + ': number of empty modules', s['nempty'], sum(1 for m in s['modules'] if not m[1]))
    return mem

def comps_in(nodes, edges):
    p = {u: u for u in nodes}
    def f(x):
        while p[x] != x: x = p[x]
        return x
    for u, v, _ in edges:
        if u in p and v in p: p[f(u)] = f(v)
    d = {}
    for u in nodes: d.setdefault(f(u), set()).add(u)
    return list(d.values())

def run_hist(ctx, c):
    r = call(ctx, c)
    n, M = c['n'], c['M']
    A, k = matrix(c)
    if c['norm'] == 2: ctx.label('projected bipartite network')
    links = [(u, v, 0) for u, v in A]
    mem = check_state(r['start'], n, 'start', k, M)
    if M == n: eq('modules at the start', sorted(mem), list(range(n)))
    before = r['start']
    changed = 0
    for i, (st_, t) in enumerate(zip(c['steps'], r['steps'])):
        what = 'after step %d %r' % (i, st_)
        op, s = t['op'], t['s']
        newM = before['M']
        if op == 'Z': newM -= before['nempty']
        new = check_state(s, n, what, k, newM)
        want = list(mem)
        if op == 'C':
            want[t['u']] = t['b']
            eq(what + ': membership', new, want)
        elif op == 'G':
            A, B = before['modules'][t['a']][3], before['modules'][t['b']][3]
            if A and B:
                check(len({new[u] for u in A + B}) == 1 and new[A[0]] in (t['a'], t['b']), '%s: merged members are in modules %r', what, [new[u] for u in A + B])
                for u in A + B: want[u] = new[A[0]]
            eq(what + ': membership', new, want)
        elif op in 'SA':
            a, b = t['a'], t['b']
            if a >= 0 and b >= 0:
                T = before['modules'][a][3]
                check(all(new[u] in (a, b) for u in T), '%s: members went to %r', what, [new[u] for u in T])
                check(all(new[u] == mem[u] for u in range(n) if u not in T), '%s: a node outside the split module moved', what)
                if op == 'S':
                    cs = comps_in(T, links)
                    eq(what + ': number of components', t['ret'], len(cs))
                    for x in cs: check(len({new[u] for u in x}) == 1, '%s: component %r was torn apart: %r', what, sorted(x), [new[u] for u in sorted(x)])
                    if len(cs) > 1:
                        check(len({new[u] for u in T}) == 2, '%s: a module with %d components was not split', what, len(cs))
                        ctx.label('split')
                    else: eq(what + ': connected module', new, mem)
                else:
                    eq(what + ': return', t['ret'], 0)
                    ctx.label('annealed split')
            else: eq(what + ': membership', new, mem)
        elif op == 'Z':
            eq(what + ': grouping', gen.canon(new), gen.canon(mem))
            eq(what + ': empty modules', s['nempty'], 0)
            ctx.label('compress')
        elif op == 'Y':
            eq(what + ': the copy', [s[x] for x in ('N', 'M', 'nempty', 'modules', 'nodes')], [before[x] for x in ('N', 'M', 'nempty', 'modules', 'nodes')])
        changed += new != mem
        mem, before = new, s
    ctx.nontrivial(changed >= 2 and len(set(mem)) > 1)

def run_stack(ctx, c):
    r = ctx.ex('partition').call('stack', c['max'], len(c['ops']), c['ops'])
    s, want = [], []
    for v in c['ops']:
        if v >= 0: s.append(v)
        else: want.append(s.pop() if s else -1)
    eq('popped', r['pops'], want)
    ctx.nontrivial(any(x >= 0 for x in want) and -1 in c['ops'])

@st.composite
def stack(draw):
    ops = draw(gen.lists(st.one_of(st.just(-1), st.integers(0, 1000)), 40))
    d = m = 0
    for v in ops:
        d = d + 1 if v >= 0 else max(0, d - 1)
        m = max(m, d)
    return dict(max=max(1, m), ops=ops)

FACETS = [
    Facet('history', history(), run_hist, quick=6000, thorough=120000, exes=['partition'],
          rule='at least two operations changed the membership and several modules remain'),
    Facet('stack', stack(), run_stack, quick=500, thorough=5000, exes=['partition'], rule='something was popped'),
]
FACETS += gen.larger(FACETS, history=(300, 6000))
