from hypothesis import strategies as st
from pbt.core import Facet, check, eq, Raw
from pbt import gen
from pbt.netcheck import check_net

PROPERTY = 'C03'
W = st.sampled_from([1.0, 2.0, 0.5, 3.25, -1.0])
I = st.integers(0, 40)

def ops(directed):
    add = st.tuples(st.just('A'), I, I, st.booleans(), st.booleans(), W)
    soft = st.tuples(st.just('S'), I, I, st.booleans(), st.booleans(), W)
    return st.one_of(add, add, add, st.tuples(st.just('N')), st.tuples(st.just('R'), I), st.tuples(st.just('R'), I), st.tuples(st.just('I')),
                     st.tuples(st.just('C')), st.tuples(st.just('L')), st.tuples(st.just('M')), soft, st.tuples(st.just('G')),
                     st.tuples(st.just('D'), I), st.tuples(st.just('D'), I), st.tuples(st.just('T')), st.tuples(st.just('X'), I))

@st.composite
def case(draw):
    directed = draw(st.booleans())
    return dict(directed=directed, n0=draw(st.integers(0, 7)), ops=[list(o) for o in draw(gen.lists(ops(directed), 30))],
                full=draw(st.sampled_from([2, 2, 1])))

def run(ctx, c):
    lab = ['a%d' % i for i in range(c['n0'])]
    nxt = c['n0']
    wm = {}
    req, exp = [], []
    sym = 0 if c['directed'] else 1
    kinds = set()
    for o in c['ops']:
        k = o[0]; n = len(lab); ret = 0; dret = 0.0
        def add(u, v, au, ad, w):
            if u == v and not au: return 0
            if (u, v) in wm:
                if ad: wm[(u, v)] += w; return 1
                return 0
            wm[(u, v)] = w
            return 1
        send = None
        if k == 'N':
            lab.append('a%d' % nxt); nxt += 1; send = ['N', lab[-1]]
        elif n == 0: continue
        elif k in 'AS':
            u, v = o[1] % n, o[2] % n
            send = [k, u, v, o[3], o[4], o[5]]
            ret = add(u, v, o[3], o[4], o[5])
            if sym and u != v:             # an undirected user adds both ends
                req.append((k, u, v, o[3], o[4], o[5], 0)); exp.append((ret, 0.0, None))
                send = [k, v, u, o[3], o[4], o[5]]
                ret = add(v, u, o[3], o[4], o[5])
        elif k == 'R':
            if not wm: continue
            u, v = sorted(wm)[o[1] % len(wm)]
            del wm[(u, v)]
            if sym and u != v: del wm[(v, u)]
            send = ['R', u, v, sym]
        elif k == 'I':
            touched = {x for e in wm for x in e}
            keep = [i for i in range(n) if i in touched]
            ret = n - len(keep)
            pos = {u: i for i, u in enumerate(keep)}
            lab = [lab[i] for i in keep]; wm = {(pos[a], pos[b]): w for (a, b), w in wm.items()}
            send = ['I']
            if ret: kinds.add('isolated removed')
        elif k == 'X':
            u = o[1] % n
            lab = lab[:u] + lab[u + 1:]
            f = lambda i: i - (i > u)
            if any(u in e for e in wm): kinds.add('linked node removed')
            wm = {(f(a), f(b)): w for (a, b), w in wm.items() if u not in (a, b)}
            send = ['X', u]
        elif k == 'D':
            u = o[1] % n; send = ['D', u]
            ret = sum(1 for e in wm if e[0] == u); dret = sum(w for e, w in wm.items() if e[0] == u)
        elif k == 'T':
            send = ['T', 0]; ret = len(wm)
        else: send = [k]
        kinds.add(k)
        req.append(tuple(send) + (c['full'],)); exp.append((ret, dret, (list(lab), dict(wm))))
    flat = []
    for r in req:
        flat.append(Raw(r[0])); flat.extend(r[1:])
    r = ctx.ex('graph').call('edit', c['n0'], ['a%d' % i for i in range(c['n0'])], len(req), *flat)
    for i, (s, (ret, dret, mod)) in enumerate(zip(r['states'], exp)):
        op = req[i]
        eq('return value of step %d %r' % (i, op), s['ret'], ret)
        eq('strength at step %d %r' % (i, op), s['dret'], dret, 1e-9)
        if mod is None: continue
        l, m = mod
        check_net(s['net'], l, m, 'after step %d %r' % (i, op), 1e-9)
        if c['full'] == 2:
            eq('degrees after step %d %r' % (i, op), s['deg'], [sum(1 for e in m if e[0] == u) for u in range(len(l))])
            eq('links after step %d' % i, s['tot'], len(m))
            for u in range(len(l)): eq('strength of %d after step %d %r' % (u, i, op), s['str'][u], sum(w for e, w in m.items() if e[0] == u), 1e-9)
    ctx.label('directed' if c['directed'] else 'undirected', *sorted(kinds))
    ctx.nontrivial(len(kinds) >= 3)

FACETS = [Facet('edit', case(), run, quick=7000, thorough=150000, exes=['graph'],
                rule='edit sequences (<=30 of add node/add link/soft add/remove link/remove isolated/remove node/clean/rewire/copy/query) against a dictionary model after every step; non-trivial: >=3 kinds of operation')]
FACETS += gen.larger(FACETS, edit=(300, 6000))
