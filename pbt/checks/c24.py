import re
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close, Raw
from pbt import gen
from pbt.netcheck import check_net

PROPERTY = 'C24'
PREC = 1e-5

@st.composite
def bip(draw, hi=6, big=None, weighted=None, exotic=True, min_edges=0):
    """Labels of both sides (which may share labels) and distinct links [u, a, w]."""
    n1, n2 = draw(gen.sizes(1, hi, big)), draw(gen.sizes(1, hi, big))
    l1, l2 = draw(gen.labels(n1, exotic=exotic)), draw(gen.labels(n2, exotic=exotic))
    kind = draw(st.sampled_from(['list', 'list', 'dense', 'complete', 'pa']))
    allp = [(u, a) for u in range(n1) for a in range(n2)]
    if kind == 'list': es = draw(st.lists(st.sampled_from(allp), max_size=3 * max(n1, n2), unique=True))
    elif kind == 'complete': es = allp
    elif kind == 'dense':
        drop = set(draw(st.lists(st.integers(0, len(allp) - 1), max_size=n1)))
        es = [e for i, e in enumerate(allp) if i not in drop]
    else: es = sorted({(u, min(draw(st.integers(0, n2 - 1)), draw(st.integers(0, n2 - 1)))) for u in range(n1) for _ in range(draw(st.integers(1, 3)))})
    if len(es) <= 40: es = draw(st.permutations(es))
    for e in allp:
        if len(es) >= min_edges: break
        if e not in es: es = es + [e]
    w = draw(st.booleans()) if weighted is None else weighted
    ws = draw(gen.weights(len(es))) if w else [1.0] * len(es)
    return dict(l1=l1, l2=l2, edges=[[u, a, x] for (u, a), x in zip(es, ws)])

def bargs(b): return [len(b['l1']), b['l1'], len(b['l2']), b['l2'], len(b['edges']), [(u, a, float(w)) for u, a, w in b['edges']]]

def check_bip(d, l1, l2, E, what, tol=1e-12, groups=None):
    """E: {(u, a): w}"""
    check(d is not None, '%s: no network', what)
    L = (l1, l2)
    for s, key in ((0, 's1'), (1, 's2')):
        eq('%s: labels of set %d' % (what, s + 1), [x[0] for x in d[key]], list(L[s]))
        eq('%s: numbers of set %d' % (what, s + 1), [x[1] for x in d[key]], list(range(len(L[s]))))
        got = {}
        for u, x in enumerate(d[key]):
            for r, node, lab, w in x[3]:
                check(r >= 0, '%s: link of %r leads outside the other set', what, L[s][u])
                eq('%s: number on the link %r-%r' % (what, L[s][u], L[1 - s][r]), node, r)
                eq('%s: label on the link' % what, lab, L[1 - s][r])
                check((u, r) not in got, '%s: link %r-%r twice', what, L[s][u], L[1 - s][r])
                got[(u, r)] = w
        want = E if s == 0 else {(a, u): w for (u, a), w in E.items()}
        if set(got) != set(want): check(False, '%s (from set %d): links %r, expected %r', what, s + 1, sorted(got), sorted(want))
        for k in want: check(want[k] is None or close(got[k], want[k], tol), '%s: weight of %r is %r, expected %r', what, k, got[k], want[k])
    return d

def emap(b): return {(u, a): w for u, a, w in b['edges']}

def check_prints(r, l1, l2, E, coords=None):
    want = {(l1[u], l2[a]): w for (u, a), w in E.items()}
    for w in (0, 1):
        rows = [x.split() for x in r['txt%d' % w].splitlines()]
        check(all(len(x) == 2 + w for x in rows), 'two-column lines %r', rows)
        eq('listed links', sorted((x[0], x[1]) for x in rows), sorted(want))
        if w:
            for x in rows: check(close(float(x[2]), want[(x[0], x[1])], PREC), 'weight of %r printed as %s, is %r', x[:2], x[2], want[(x[0], x[1])])
        for c in (0, 1):
            L = r['pajek%d%d' % (c, w)].splitlines()
            n1, n = len(l1), len(l1) + len(l2)
            eq('Pajek header', L[0].split(), ['*Vertices', str(n), str(n1)])
            for i, lab in enumerate(list(l1) + list(l2)):
                m = re.match(r'^(\d+) "(.*)"((?:\s+-?[\d.]+){3})\s*$' if c else r'^(\d+) "(.*)"()\s*$', L[1 + i])
                check(m, 'Pajek vertex line %r', L[1 + i])
                eq('Pajek vertex', (int(m.group(1)), m.group(2)), (i + 1, lab))
                if c and coords:
                    for x, y in zip(map(float, m.group(3).split()), coords[i]): eq('Pajek coordinate', x, y, 1e-5)
            eq('Pajek link header', L[1 + n].strip(), '*Edges')
            rows = [x.split() for x in L[2 + n:]]
            check(all(len(x) == 2 + w for x in rows), 'Pajek link lines %r', rows)
            eq('Pajek links', sorted((int(x[0]), int(x[1])) for x in rows), sorted((u + 1, a + n1 + 1) for u, a in E))
            if w:
                for x in rows:
                    y = E[(int(x[0]) - 1, int(x[1]) - n1 - 1)]
                    check(close(float(x[2]), y, PREC), 'Pajek weight %s, is %r', x[2], y)

# ---- reading files
@st.composite
def text(draw):
    l1 = draw(gen.labels(draw(st.integers(1, gen.scaled(5))))); l2 = draw(gen.labels(draw(st.integers(1, gen.scaled(5)))))
    m = draw(gen.sizes(0, 10, 40))
    rows = [[draw(st.sampled_from(l1)), draw(st.sampled_from(l2)), draw(st.one_of(st.just(1.0), st.integers(1, 40).map(lambda x: x / 4)))] for _ in range(m)]
    w = draw(st.integers(0, 1)); add = draw(st.integers(0, 1))
    extra = draw(st.booleans())        # more fields than needed
    sep = [draw(st.sampled_from([' ', '\t', '  ', ' \t '])) for _ in range(3)]
    lead = draw(st.sampled_from(['', ' ', '\t']))
    bad = draw(st.sampled_from([None, None, None, None, 'one', 'empty', 'w'])) if rows else None
    lines = [lead + r[0] + sep[0] + r[1] + (sep[1] + '%g' % r[2] if w or extra else '') for r in rows]
    if bad:
        i = draw(st.integers(0, len(rows) - 1))
        if bad == 'one': lines[i] = rows[i][0]
        elif bad == 'empty': lines[i] = ''
        else:
            lines[i] = rows[i][0] + ' ' + rows[i][1] + (' x' if draw(st.booleans()) else '')
            if not w: bad = None
    return dict(rows=rows, w=w, add=add, bad=bad, text='\n'.join(lines) + ('' if not rows or draw(st.booleans()) and bad != 'empty' else '\n'))

def run_read(ctx, c):
    r = ctx.ex('bipart').call('bread', c['w'], c['add'], c['text'])
    if c['bad']:
        check(r['net'] is None, 'a malformed line was accepted'); ctx.label('malformed'); ctx.nontrivial(); return
    i1, i2, E = {}, {}, {}
    for a, b, w in c['rows']:
        k = (i1.setdefault(a, len(i1)), i2.setdefault(b, len(i2)))
        w = w if c['w'] else 1.0
        E[k] = (E[k] + w if c['add'] else E[k]) if k in E else w
    check_bip(r['net'], list(i1), list(i2), E, 'network read')
    eq('number of links', r['nl'], len(E))
    check_prints(r, list(i1), list(i2), E)
    # what was printed reads back as the same network
    a1, a2 = [x[0] for x in r['again']['s1']], [x[0] for x in r['again']['s2']]
    eq('labels read back', (sorted(a1), sorted(a2)), (sorted(i1), sorted(i2)))
    L1, L2 = list(i1), list(i2)
    check_bip(r['again'], a1, a2, {(a1.index(L1[u]), a2.index(L2[a])): w for (u, a), w in E.items()}, 'read back', PREC)
    if len(c['rows']) > len(E): ctx.label('repeated line')
    if set(i1) & set(i2): ctx.label('label in both columns')
    ctx.nontrivial(len(E) > 2)

# ---- editing
@st.composite
def ops(draw):
    b = draw(bip(6, 12))
    cur = [list(b['l1']), list(b['l2'])]
    out = []
    for _ in range(draw(st.integers(1, 7))):
        op = draw(st.sampled_from('icdrrr'))
        if op == 'i': cur.reverse()
        if op == 'r':
            s = draw(st.integers(0, 1))
            if not cur[s]: continue
            l = draw(st.sampled_from(cur[s])); cur[s].remove(l)
            out.append(['r', s + 1, l])
        else: out.append([op])
    return dict(b=b, ops=out)

def run_ops(ctx, c):
    b = c['b']
    r = ctx.ex('bipart').call('bops', bargs(b), len(c['ops']), [[Raw(o[0])] + o[1:] for o in c['ops']])
    att = {}
    for s, key in ((0, 'l1'), (1, 'l2')):
        for j, l in enumerate(b[key]):
            i = s * 50 + j + 1
            att[(s, l)] = [i * .5, -i, i * i, i + 7, i % 5, 3 * i, i / 4.]
    side = [0, 1]; labs = [list(b['l1']), list(b['l2'])]
    E = {(b['l1'][u], b['l2'][a]): w for u, a, w in b['edges']}
    def cur():
        l1, l2 = labs[side[0]], labs[side[1]]
        return l1, l2, {(l1.index(x[side[0]]), l2.index(x[side[1]])): w for x, w in E.items()}
    for o, stp in zip(c['ops'], r['steps']):
        if o[0] == 'i': side.reverse()
        elif o[0] == 'r':
            k = side[o[1] - 1]; labs[k].remove(o[2])
            E = {x: w for x, w in E.items() if x[k] != o[2]}
        l1, l2, e = cur()
        check_bip(stp['net'], l1, l2, e, 'after %r' % (o,))
        eq('number of links after %r' % (o,), stp['nl'], len(e))
        eq('node attributes after %r' % (o,), stp['attr'], [[att[(side[s], l)] for l in (l1, l2)[s]] for s in (0, 1)])
        ctx.label(o[0])
    l1, l2, e = cur()
    check_prints(r, l1, l2, e, [att[(side[s], l)][:3] for s in (0, 1) for l in (l1, l2)[s]])
    ctx.nontrivial(len(E) > 1 and len(c['ops']) > 1)

# ---- projection
def run_proj(ctx, b):
    r = ctx.ex('bipart').call('bproj', bargs(b))
    E = emap(b); n = [len(b['l1']), len(b['l2'])]
    check_bip(r['net'], b['l1'], b['l2'], E, 'network afterwards')
    for s in (0, 1):
        nb = [dict() for _ in range(n[s])]
        for (u, a), w in E.items(): nb[(u, a)[s]][(a, u)[s]] = w
        com, sww = {}, {}
        for i in range(n[s]):
            for j in range(n[s]):
                x = set(nb[i]) & set(nb[j]); y = sum(nb[i][k] * nb[j][k] for k in x)
                p = 2 * (i * n[s] + j)
                eq('common neighbours', r['com%d' % (s + 1)][p], len(x)); eq('sum of products', r['com%d' % (s + 1)][p + 1], y, 1e-12)
                if i != j and x: com[(i, j)] = len(x); sww[(i, j)] = y
        lab = (b['l1'], b['l2'])[s]
        check_net(r['p%d' % (s + 1)], lab, com, 'projection of set %d' % (s + 1))
        check_net(r['w%d' % (s + 1)], lab, sww, 'weighted projection of set %d' % (s + 1))
    ctx.nontrivial(len(com) > 2)

FACETS = [
    Facet('read', text(), run_read, quick=6000, thorough=120000, exes=['bipart'], rule='malformed file, or more than two links'),
    Facet('edit', ops(), run_ops, quick=6000, thorough=120000, exes=['bipart'], rule='two or more operations on a network that keeps links'),
    Facet('project', bip(7, 14), run_proj, quick=6000, thorough=120000, exes=['bipart'], rule='second set has more than one co-occurring pair'),
]
FACETS += gen.larger(FACETS, read=(200, 4000), edit=(200, 4000), project=(200, 4000))
