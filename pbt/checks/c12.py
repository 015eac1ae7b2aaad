from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from pbt.netcheck import check_net

PROPERTY = 'C12'
OPS = ['m'] * 6 + ['f'] * 2 + ['r'] * 2 + ['M'] * 2 + ['F'] + ['C', 'P', 'P', 'Q', 'Y', 'E', 'L', 'N']

def counters(g, mem, members):
    """(tot, in, out, totW, inW, outW) of a set of nodes recounted from the edge list."""
    s = set(members)
    t = i = 0; tw = iw = 0.0
    for u, v, w in g['edges']:
        k = (u in s) + (v in s)
        if k: t += 1; tw += w
        if k == 2: i += 1; iw += w
    return [t, i, t - i, tw, iw, tw - iw]

def check_part(dump, g, groups, what, valid=True, nets=True):
    """dump against groups = [(label, set of node indices)] in order."""
    lab = g['labels']
    eq(what + ': group labels', [x[0] for x in dump], [x[0] for x in groups])
    for (l, size, cnt, nodes), (_, mem) in zip(dump, groups):
        got = [x[0] for x in nodes]
        check(sorted(got) == sorted(lab[i] for i in mem), '%s: group %d holds %r, expected %r', what, l, got, [lab[i] for i in mem])
        eq('%s: size of group %d' % (what, l), size, len(mem))
        if nets:
            for nl, num, ref in nodes:
                check(ref >= 0 and lab[ref] == nl and num == ref, '%s: entry %r of group %d points to node %d, number %d', what, nl, l, ref, num)
        if valid:
            want = counters(g, None, mem)
            check(all(close(a, b, 1e-9) for a, b in zip(cnt, want)), '%s: counters of group %d are %r, recounted %r', what, l, cnt, want)

@st.composite
def case(draw):
    g = draw(gen.graph(2, 9, 16, weighted=True))
    k = draw(st.integers(1, 6))
    mem = [draw(st.integers(0, k - 1)) for _ in range(g['n'])]
    ops = draw(gen.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 60), st.integers(0, 60), st.integers(0, 60)), 14))
    return dict(g=g, k=k, mem=mem, ops=[list(o) for o in ops])

def run(ctx, c):
    g, n = c['g'], c['g']['n']
    groups = [[i, []] for i in range(c['k'])]
    for u, a in enumerate(c['mem']): groups[a][1].append(u)
    args, trace = [], []
    valid = True
    moved = False
    def find(u): return [i for i, x in enumerate(groups) if u in x[1]][0]
    for op, x, y, z in c['ops']:
        ng = len(groups); ret = None
        if op in 'mfr':
            u = x % n; a = find(u); b = y % ng
            if z % 12 == 0 and op != 'r' and ng > 1: a = (a + 1) % ng          # wrong source group: nothing happens
            args.append(op_tok(op) + [u, a, b])
            if u in groups[a][1]:
                groups[a][1].remove(u); groups[b][1].append(u)
                if op == 'f': valid = False
                ret = 1; moved = True
            else: ret = 0
            if op == 'r': ret = 1
        elif op in 'MF':
            a, b = x % ng, y % ng
            if a == b: continue
            args.append(op_tok(op) + [a, b])
            groups[b][1].extend(groups[a][1])
            if groups[a][1]:
                moved = True
                if op == 'F': valid = False
            groups[a][1] = []
        elif op == 'C':
            args.append(op_tok(op)); groups = [x for x in groups if x[1]]
        elif op in 'PQY':
            args.append(op_tok(op)); valid = op != 'Q'
        elif op == 'E':
            args.append(op_tok(op))
            e = [i for i, x in enumerate(groups) if not x[1]]
            ret = e[0] if e else -2
        elif op == 'L':
            i = x % ng
            args.append(op_tok(op) + [groups[i][0]]); ret = i
        elif op == 'N':
            lab = max(x[0] for x in groups) + 1
            args.append(op_tok(op) + [lab]); groups.append([lab, []])
        trace.append((op, ret, valid, [(x[0], list(x[1])) for x in groups]))
    r = ctx.ex('modules').call('pops', gen.net_args(g), c['k'], c['mem'], len(args), *args)
    eq('states', len(r['states']), len(trace))
    for i, (s, (op, ret, ok, gs)) in enumerate(zip(r['states'], trace)):
        what = 'after op %d (%s)' % (i, op)
        if ret is not None: eq(what + ': return value', s['ret'], ret)
        check_part(s['part'], g, gs, what, valid=ok)
        ing = [None] * n
        for l, mem in gs:
            for u in mem: ing[u] = l
        eq(what + ': node group numbers', s['in'], ing)
        eq(what + ': group counts', [s['ng'], s['nne'], s['size']], [len(gs), sum(1 for x in gs if x[1]), n])
    check_net(r['net'], g['labels'], gen.wmap(g), 'network afterwards')
    for op, *_ in c['ops']: ctx.label('op ' + op)
    if valid and moved: ctx.label('counters checked at the end')
    ctx.nontrivial(moved and bool(g['edges']))

from pbt.core import Raw
def op_tok(op): return [Raw(op)]

FACETS = [Facet('ops', case(), run, quick=6000, thorough=120000, exes=['modules'],
                rule='operation sequence on a random weighted network and partition; non-trivial: the network has links and at least one node changed group')]
FACETS += gen.larger(FACETS, ops=(300, 6000))
