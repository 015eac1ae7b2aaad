"""C45: input that is not in the format is refused; input that is, however odd it looks, is read as what it says."""
import re
from hypothesis import strategies as st
from pbt.core import Facet, check, eq, close
from pbt import gen
from pbt.netcheck import check_net
from .c01 import model as net_model
from .c24 import check_bip

PROPERTY = 'C45'
MAXLEN = 99                      # MAX_LABEL_LENGTH - 1: the longest label
WS = [' ', ' ', '\t', '  ', '\r', '\v', '\f', ' \t\r ', ' ' * 130]
GOOD = {'1': 1, '2.5': 2.5, '-3': -3, '+4': 4, '1e2': 100, '0x10': 16, '.5': .5, '7.': 7, '2kg': 2, '5,3': 5, '6;': 6, '000': 0, '1' + '0' * 30: 1e30}
BAD = ['x', '--1', '.', 'e5', '+', 'one', '$1', '"1"']

def odd_label():
    return st.one_of(st.sampled_from(['a', 'b', 'c', 'A', '1', '01', '#', '%s', '%n%d', '"', "a'b", '-', '/', '//', '///', '////', '//a', '*Vertices', 'é', 'нет', '\x7f', '\x01']),
                     st.integers(MAXLEN - 2, MAXLEN).map(lambda k: 'z' * k), st.integers(0, 9).map(str))

def long_label(): return st.one_of(st.integers(MAXLEN + 1, MAXLEN + 4), st.integers(MAXLEN + 1, 400), st.sampled_from([1000, 4096, 70000])).map(lambda k: 'L' * k)

@st.composite
def row(draw, pool, weighted, bad):
    """One line of an edge list; bad: in which way it breaks the format. Returns the text and what it says (None: nothing)."""
    a, b = draw(st.sampled_from(pool)), draw(st.sampled_from(pool))
    ws = lambda: draw(st.sampled_from(WS))
    opt = lambda: draw(st.sampled_from(['', '', '', ' ', '\t', '\r']))
    t, w = '1', 1.0
    if weighted or draw(st.integers(0, 3)) == 0: t = draw(st.sampled_from(sorted(GOOD))); w = float(GOOD[t])
    f = [a, b] + ([t] if weighted or draw(st.integers(0, 3)) == 0 else [])
    if len(f) == 2 or not weighted: w = 1.0
    if bad == 'short': f = f[:draw(st.integers(0, 2 if weighted else 1))]
    elif bad == 'long': f[draw(st.integers(0, 1))] = draw(long_label())
    elif bad == 'weight':
        if weighted: f[2] = draw(st.sampled_from(BAD))
        else: f = f[:1]
    elif bad == 'nul': f = f[:draw(st.integers(0, 2 if weighted else 1))] + ['\0', 'x', '1']
    elif draw(st.integers(0, 5)) == 0:
        if len(f) == 2 and draw(st.booleans()): f.append(draw(st.sampled_from(BAD)))      # a third column that nobody reads
        elif len(f) == 3: f += draw(st.lists(st.one_of(st.sampled_from(BAD), long_label()), min_size=1, max_size=2))
    s = opt()
    for i, x in enumerate(f): s += (ws() if i else '') + x
    if not bad and draw(st.integers(0, 9)) == 0: s += '\0garbage'
    return s + opt(), None if bad else [a, b, w]

@st.composite
def listing(draw, kinds=('short', 'long', 'weight', 'nul')):
    pool = draw(st.lists(odd_label(), min_size=2, max_size=6, unique=True)); pool2 = pool
    weighted = draw(st.booleans())
    m = draw(st.integers(0, 8)); at = draw(st.integers(0, m)); bad = draw(st.sampled_from([None] + list(kinds)))
    rows = [draw(row(pool, weighted, None)) for _ in range(m)]
    if bad: rows.insert(at, draw(row(pool, weighted, bad)))
    text = '\n'.join(r[0] for r in rows)
    if rows and (rows[-1][0] == '' or draw(st.booleans())): text += '\n'
    return dict(text=text, rows=[r[1] for r in rows], weight=weighted, bad=bad)

@st.composite
def net_case(draw):
    c = draw(listing())
    c.update(auto=draw(st.booleans()), add=draw(st.booleans()), sym=draw(st.booleans()))
    return c

def end(ctx, c):
    ctx.label(c['bad'] or 'in format')
    ctx.nontrivial(bool(c['bad']) or len(c['rows']) > 1)

def run_net(ctx, c):
    r = ctx.ex('graph').call('fbuild', c['text'], c['weight'], c['auto'], c['add'], c['sym'])
    if c['bad']: check(r['net'] is None, 'a file with a bad line (%s) was accepted: %r', c['bad'], c['text'])
    else:
        L = sorted({x for r_ in c['rows'] for x in r_[:2]})
        order, wm = net_model(dict(c, labels=L, lines=[[L.index(a), L.index(b), w, ' '] for a, b, w in c['rows']]))
        check(r['net'] is not None, 'a good file was refused: %r', c['text'])
        check_net(r['net'], order, wm)
    end(ctx, c)

@st.composite
def bip_case(draw):
    c = draw(listing()); c['add'] = draw(st.booleans())
    return c

def bip_model(rows, add):
    i1, i2, E = {}, {}, {}
    for a, b, w in rows:
        k = (i1.setdefault(a, len(i1)), i2.setdefault(b, len(i2)))
        E[k] = E[k] + w if k in E and add else E.get(k, w)
    return list(i1), list(i2), E

def run_bip(ctx, c):
    r = ctx.ex('bipart').call('bread', c['weight'], c['add'], c['text'])
    if c['bad']: check(r['net'] is None, 'a file with a bad line (%s) was accepted: %r', c['bad'], c['text'])
    else:
        check(r['net'] is not None, 'a good file was refused: %r', c['text'])
        check_bip(r['net'], *bip_model(c['rows'], c['add']), 'the bipartite network read')
    end(ctx, c)

@st.composite
def edge_case(draw):
    c = draw(listing()); c['bip'] = draw(st.sampled_from([0, 0, 1, 2]))
    return c

def run_edges(ctx, c):
    r = ctx.ex('partition').call('edges', c['text'], int(c['weight']), c['bip'])
    if c['bad']: check(r['rc'] != 0, 'a file with a bad line (%s) was accepted: %r', c['bad'], c['text'])
    else:
        eq('return code for %r' % c['text'], r['rc'], 0)
        lab = r['labels']
        eq('number of edges', len(r['edges']), len(c['rows']))
        eq('labels', sorted(lab), sorted({x[i] for x in c['rows'] for i in ((0, 1), (0,), (1,))[c['bip']]}))
        for e, x in zip(r['edges'], c['rows']):
            eq('weight', e[2], x[2])
            if c['bip'] == 0: eq('ends', [lab[e[0]], lab[e[1]]], x[:2])
            else: eq('end', lab[e[0]], x[c['bip'] - 1])
    end(ctx, c)

# ---- ratings and queries
@st.composite
def query_case(draw):
    obs = draw(listing(('short', 'long', 'weight'))); q = draw(listing(('short', 'long', 'nul', 'few')))
    if obs['bad'] and draw(st.integers(0, 4)): obs = dict(text='a b 1\nb c 0\n', rows=[['a', 'b', 1.0], ['b', 'c', 0.0]], weight=True, bad=None)
    if not obs['weight']: obs = dict(text='', rows=[], weight=True, bad=None)
    if q['weight']: q = dict(text='a b\n', rows=[['a', 'b', 1.0]], weight=False, bad=None) if q['bad'] != 'few' else dict(q, weight=False)
    n = len(q['rows'])
    if q['bad'] == 'few': q['rows'] = [x for x in q['rows'] if x]; q['text'] = q['text'].rstrip('\n'); n = draw(st.integers(1, 3)); q['text'] = 'a b\n' * draw(st.integers(0, n - 1))
    return dict(obs=obs, q=q, n=n)

def run_queries(ctx, c):
    o, q = c['obs'], c['q']
    r = ctx.ex('recommend').call('files', o['text'], q['text'], c['n'], 0)
    if o['bad']: check(r['read'] is None, 'ratings with a bad line (%s) were accepted: %r', o['bad'], o['text']); end(ctx, o); return
    l1, l2, E = bip_model(o['rows'], 0)
    check_bip(r['read'], l1, l2, E, 'the ratings read')
    if q['bad']: check(r['q'] is None, '%d queries (%s) were read from %r', c['n'], q['bad'], q['text'])
    else:
        check(r['q'] is not None, 'good queries were refused: %r', q['text'])
        g1, g2 = [x[0] for x in r['net']['s1']], [x[0] for x in r['net']['s2']]
        eq('queries', [[g1[x[0]], g2[x[1]]] for x in r['q']], [x[:2] for x in q['rows']])
    end(ctx, dict(bad=q['bad'] and 'query ' + q['bad'], rows=q['rows']))

# ---- partitions
@st.composite
def part_case(draw):
    tabs = draw(st.booleans())
    lab = st.one_of(odd_label(), st.integers(0, 99).map(lambda i: 'n%d' % i)).filter(lambda x: x != '///')
    if tabs: lab = st.one_of(lab, st.sampled_from(['with blank', ' ', 'a  b', '///', 'x' * MAXLEN]))
    groups = draw(st.lists(st.lists(lab, min_size=1, max_size=4), min_size=0 if tabs else 1, max_size=4))
    bad = draw(st.sampled_from([None, None, 'long'] + ([] if tabs else ['cut', 'empty'])))
    if bad == 'long':
        x = draw(long_label())
        if not groups: groups = [[]]
        g = draw(st.sampled_from(groups)); g.insert(draw(st.integers(0, len(g))), x)
    if tabs:
        text = ''.join(draw(st.sampled_from(['', '', '\n', '\n\n', '\t', '\t\n'])) + draw(st.sampled_from(['\t', '\t', '\t\t'])).join(g) + draw(st.sampled_from(['\n', '\n', '\t\n', '\n\n'])) for g in groups)
        if draw(st.integers(0, 3)) == 0: text = text.rstrip('\n\t')
    else:
        s = lambda: draw(st.sampled_from(['\n', '\n', ' ', '\r\n', '\t', '\n\n', ' \n', '\n' + ' ' * 120]))
        tok = [x for g in groups for x in g + ['///']]
        if bad == 'cut': tok.pop()
        if bad == 'empty': tok = []
        text = draw(st.sampled_from(['', '', '\n', ' '])) + ''.join(x + s() for x in tok)
        if draw(st.integers(0, 3)) == 0: text = text.rstrip()
    return dict(tabs=tabs, text=text, groups=groups, bad=bad)

def run_part(ctx, c):
    r = ctx.ex('modules').call('pread', int(c['tabs']), c['text'])['read']
    if c['bad']: check(r is None, 'a partition file (%s) was accepted: %r', c['bad'], c['text'])
    else:
        check(r is not None, 'a good partition file was refused: %r', c['text'])
        eq('groups read from %r' % c['text'], [[n[0] for n in x[3]] for x in r if x[1] > 0 or x[3]], c['groups'])
    end(ctx, dict(bad=c['bad'], rows=c['groups']))

# ---- any bytes
PIECES = [b'a', b'b', b'ab', b' ', b' ', b'\t', b'\n', b'\n', b'\n', b'\r\n', b'\0', b'///', b'1', b'0.5', b'-', b'#', b'# ', b'\xff', b'/', b'//', b'\xc3\xa9', b'%s', b'z' * 50, b'y' * 99, b'x' * 100, b'\x0b', b'\x0c', b'*']
@st.composite
def bytes_case(draw):
    t = b''.join(draw(st.lists(st.one_of(st.sampled_from(PIECES), st.sampled_from(PIECES), st.sampled_from(PIECES), st.binary(max_size=6)), max_size=40)))
    return dict(kind=draw(st.sampled_from(['net', 'bip', 'edges', 'list', 'tabs', 'query', 'modules'])), text=t.decode('latin1'), weight=draw(st.integers(0, 3)) == 0)

WSB = re.compile(b'[ \t\n\x0b\x0c\r]+')
def parse(t):
    """What a file of pairs says: a list of pairs, or None."""
    rows = []
    for l in t.split(b'\n')[:-1] + ([t.split(b'\n')[-1]] if t.split(b'\n')[-1] else []):
        f = [x for x in WSB.split(l.split(b'\0')[0]) if x][:2]
        if len(f) < 2 or max(map(len, f)) > MAXLEN: return None
        rows.append([x.decode('utf-8', 'surrogateescape') for x in f])
    return rows

def run_bytes(ctx, c):
    t = c['text'].encode('latin1'); k = c['kind']; w = int(c['weight']) if k in ('net', 'bip', 'edges') else 0
    rows = None if w else parse(t)
    if k == 'net': r = ctx.ex('graph').call('fbuild', t, w, 1, 0, 0)['net']; got = r and [x[0] for x in r['nodes']]
    elif k == 'bip': r = ctx.ex('bipart').call('bread', w, 0, t)['net']; got = r and ([x[0] for x in r['s1']], [x[0] for x in r['s2']])
    elif k == 'edges':
        r = ctx.ex('partition').call('edges', t, w, 0); got = None
        if r['rc'] == 0: got = [[r['labels'][e[0]], r['labels'][e[1]]] for e in r['edges']]
    elif k == 'query':
        n = t.count(b'\n') + (not t.endswith(b'\n') and t != b'')
        r = ctx.ex('recommend').call('files', b'', t, n, 0); got = r['q']
        if got is not None: got = [[r['net']['s1'][x[0]][0], r['net']['s2'][x[1]][0]] for x in got]
    elif k == 'modules':
        lab = ['a', 'b', 'ab', '1', '#']
        r = ctx.ex('partition').call('assignf', 5, 5, lab, [1.0, 2.0, 3.0, 4.0, 5.0], t)
        seen = [x for m in r['part']['modules'] for x in m[3]]
        eq('nodes in modules', len(set(seen)), len(seen)); eq('nodes missing', r['missing'], 5 - len(seen))
        for x in range(5): check(x not in seen or lab[x].encode() in t, 'node %r was never named', lab[x])
        ctx.nontrivial(len(seen) > 1); return
    else:
        t = t.replace(b'\0', b'0')
        r = ctx.ex('modules').call('pread', int(k == 'tabs'), t)['read']
        got = r and [[n[0] for n in x[3]] for x in r if x[3]]
        if k == 'list':
            tok = [x for x in WSB.split(t) if x]
            ok = tok and tok[-1] == b'///' and max(map(len, tok)) <= MAXLEN
            want = [[y.decode('utf-8', 'surrogateescape') for y in WSB.split(x) if y] for x in b' '.join(b'|' if y == b'///' else y.replace(b'|', b'!') for y in tok).split(b'|')] if ok else None
            t = t.replace(b'|', b'!')
            if b'|' in c['text'].encode('latin1'): return
        else:
            tok = [x for x in re.split(b'[\t\n]', t) if x]
            ok = all(len(x) <= MAXLEN for x in tok)
            want = [[y.decode('utf-8', 'surrogateescape') for y in x.split(b'\t') if y] for x in t.split(b'\n')] if ok else None
        check((r is None) == (want is None), '%s: %r was %s', k, t, 'refused' if r is None else 'accepted')
        if want is not None: eq('groups read from %r' % t, got, [x for x in want if x])
        ctx.label(k, 'in format' if want is not None else 'refused'); ctx.nontrivial(want is None or len(got) > 1); return
    if not w:
        check((got is None) == (rows is None), '%s: %r was %s', k, t, 'refused' if got is None else 'accepted')
        if rows is not None:
            if k == 'net': eq('nodes of %r' % t, got, list(dict.fromkeys(x for y in rows for x in y)))
            elif k == 'bip': eq('nodes of %r' % t, got, (list(dict.fromkeys(y[0] for y in rows)), list(dict.fromkeys(y[1] for y in rows))))
            else: eq('pairs of %r' % t, got, rows)
        ctx.label('in format' if rows is not None else 'refused')
    ctx.label(k); ctx.nontrivial(w or rows is None or len(rows) > 1)

# ---- programs
NET = 'a b\nb c\nc a\nc d\nd e\n'
RAT = 'a x 1\nb x 0\nb y 1\nc y 0\n'
PART = 'a\nb\n///\nc\nd\ne\n///\n'
PART_B = 'a\nb\n///\nc\n///\n'
N1 = lambda *more: (['net.dat'] + list(more), {'net.dat': NET}, len(more) + 1)
# arguments, files, fewest arguments; files starting with @ are partitions
PROGS = {p: N1('7') for p in ('conflict',)}
PROGS['conflict'] = (['r.dat', '7'], {'r.dat': RAT}, 2)
for p in ('reliability_links_mb', 'reliability_links_mb_OR', 'reliability_links_mb_gibbs', 'reliability_links_mb_gibbs_OR', 'only_degeneration_mb', 'only_degeneration_mb_gibbs',
          'reliability_links', 'reliability_links_gibbs', 'reliability_links_gibbs_sparse', 'reliability_reconstruct', 'netrandomize'): PROGS[p] = N1('7')
for p in ('countlinks', 'getgiant', 'lapspec', 'netprop', 'nodeprop'): PROGS[p] = N1()
PROGS['netlayout'] = N1('7', '0.1', '10', '0.1', '2')
PROGS['netcompare'] = (['net.dat', 'b.dat'], {'net.dat': NET, 'b.dat': 'a b\nc d\n'}, 2)
PROGS['multinetlayout'] = (['net.dat', 'b.dat'], {'net.dat': NET, 'b.dat': 'a b\nc d\n'}, 2)
PROGS['reliability_links_k'] = (['2', 'net.dat', '7'], {'net.dat': NET.replace('\n', ' 1\n')}, 3)
PROGS['multi_recommend_2'] = (['r.dat', 'q.dat', '7'], {'r.dat': RAT, 'q.dat': 'a y\nc x\n'}, 3)
for p in ('multi_recommend_k', 'multi_recommend_k_gibbs'): PROGS[p] = (['2', 'r.dat', 'q.dat', '7'], {'r.dat': RAT, 'q.dat': 'a y\nc x\n'}, 4)
PROGS['netcarto'] = (['-f', 'net.dat', '-s', '7', '-i', '0.1', '-c', '0.5'], {'net.dat': NET}, None)
PROGS['netcarto -p'] = (['-f', 'net.dat', '-p', '@p.dat'], {'net.dat': NET, '@p.dat': 'a\tb\t\nc\td\te\t\n'}, None)
PROGS['netcarto -w'] = (['-w', '-f', 'net.dat', '-i', '0.1', '-c', '0.5'], {'net.dat': NET.replace('\n', ' 1\n')}, None)
PROGS['netcarto_legacy'] = (['-f', 'net.dat', '-s', '7', '-i', '0.1', '-c', '0.5', '-r', '0'], {'net.dat': NET}, None)
PROGS['mutualinfo'] = (['@p.dat', '@q.dat'], {'@p.dat': PART, '@q.dat': PART.replace('///\nc', 'c\n///')}, 2)
PROGS['bipartitemodularity'] = (['r.dat', '@p.dat', '0'], {'r.dat': 'a x\nb x\nb y\nc y\n', '@p.dat': PART_B}, 3)
PROGS['bipartitemodularity_w'] = (['r.dat', '@p.dat', '0'], {'r.dat': RAT, '@p.dat': PART_B}, 3)
PROGS['modularbipart'] = (['2', '3', '4', '2', '0.5', '7'], {}, 6)

@st.composite
def prog_case(draw):
    p = draw(st.sampled_from(sorted(PROGS)))
    args, files, fewest = PROGS[p]
    kinds = ['missing', 'short', 'long'] if files else []
    if any(f[0] == '@' for f in files) and p != 'netcarto -p': kinds += ['cut']
    if fewest: kinds += ['usage']
    if any(f[0] != '@' for f in files): kinds += ['empty']
    if p.startswith('bipartitemodularity'): kinds += ['stranger']
    kind = draw(st.sampled_from(kinds))
    files = dict(files); args = list(args)
    if kind == 'usage': args = args[:draw(st.sampled_from([*range(fewest), fewest - 1, fewest - 1]))]
    else:
        f = draw(st.sampled_from([x for x in sorted(files) if (kind != 'cut' and kind != 'stranger' or x[0] == '@') and (kind != 'empty' or x[0] != '@')]))
        L = files[f].split('\n')[:-1]; i = draw(st.integers(0, len(L) - 1))
        if kind == 'missing': del files[f]
        elif kind == 'empty': files[f] = ''
        elif kind == 'stranger': files[f] = '\n'.join(L[:i] + ['stranger'] + L[i:]) + '\n'
        elif kind == 'cut': files[f] = '' if draw(st.booleans()) else '\n'.join(L[:-1]) + '\n'
        elif kind == 'short':
            if f[0] == '@': files[f] = '\n'.join(L[:i]) + '\n' if p != 'netcarto -p' else '\n'.join(L[:i] + L[i + 1:])
            else:
                L[i] = ' '.join(L[i].split()[:draw(st.integers(0, len(L[i].split()) - 1))]); files[f] = '\n'.join(L) + '\n'
            if f[0] == '@' and files[f].endswith('///\n'): files[f] = files[f][:-4]
        else:
            x = draw(long_label())
            if p == 'netcarto -p' and f[0] == '@': L[i] = x
            elif f[0] == '@': L[i] = x
            else: L[i] = x + ' ' + ' '.join(L[i].split()[1:])
            files[f] = '\n'.join(L) + '\n'
    return dict(prog=p, kind=kind, args=args, files=files)

def run_prog(ctx, c):
    name = c['prog'].split()[0]
    rc, out, err, fs = ctx.run_prog(name, c['args'], c['files'], 'asan', timeout=60)
    if c['kind'] == 'empty' and rc == 0: ctx.label('empty, accepted'); return      # nothing in it, nothing to say about it
    check(rc > 0 and rc != 97, '%s (%s) exits with %d: %s', c['prog'], c['kind'], rc, err[-600:])
    check('AddressSanitizer' not in err and 'runtime error' not in err, '%s (%s): %s', c['prog'], c['kind'], err[-600:])
    if c['kind'] == 'usage': check('use' in (out + err).lower(), '%s does not say how to use it', c['prog'])
    check(bool((out + err).strip()), '%s (%s) says nothing', c['prog'], c['kind'])
    eq('%s (%s): files afterwards' % (c['prog'], c['kind']), {k: v for k, v in fs.items()}, {k: v.encode() for k, v in c['files'].items()})
    ctx.label(c['kind']); ctx.nontrivial()

@st.composite
def path_case(draw):
    p = draw(st.sampled_from(sorted(PROGS)))
    while not PROGS[p][1]: p = 'netprop'
    return dict(prog=p, dir=draw(st.lists(st.integers(40, 180), min_size=1, max_size=6)), down=draw(st.integers(0, 2)))

def run_path(ctx, c):
    """A file may lie anywhere: names of files may be of any length."""
    import os
    name = c['prog'].split()[0]
    args, files, _ = PROGS[c['prog']]
    # the scratch directory of the run is the current directory: only ./././ prefixes lead to it without creating anything
    pre = './' * sum(c['dir'])
    a = [pre + x if x in files else x for x in args]
    fast = 'opt'
    r0 = ctx.run_prog(name, args, files, fast, timeout=200)
    r1 = ctx.run_prog(name, a, files, 'asan', timeout=400)
    eq('%s: exit status with a long path' % c['prog'], r1[0], r0[0])
    eq('%s: output with a long path' % c['prog'], r1[1].replace(pre, ''), r0[1])
    eq('%s: files with a long path' % c['prog'], sorted(r1[3]), sorted(r0[3]))
    for f in r0[3]:
        if not f.endswith('.tmp'): eq('%s: file %s' % (c['prog'], f), r1[3][f], r0[3][f])
    ctx.nontrivial()

P = [(p.split()[0], fl) for p in sorted(PROGS) for fl in ('asan', 'opt')]
FACETS = [
    Facet('networks', net_case(), run_net, quick=3000, thorough=60000, exes=['graph'], rule='a bad line, or several links'),
    Facet('bipartite networks', bip_case(), run_bip, quick=3000, thorough=60000, exes=['bipart'], rule='a bad line, or several links'),
    Facet('edge lists', edge_case(), run_edges, quick=3000, thorough=60000, exes=['partition'], rule='a bad line, or several links'),
    Facet('queries', query_case(), run_queries, quick=2000, thorough=40000, exes=['recommend'], rule='a bad line, or several queries'),
    Facet('partition files', part_case(), run_part, quick=3000, thorough=60000, exes=['modules'], rule='not in the format, or several groups'),
    Facet('bytes', bytes_case(), run_bytes, quick=6000, thorough=150000, exes=['graph', 'bipart', 'partition', 'recommend', 'modules'], rule='refused, or several pairs or groups'),
    Facet('programs', prog_case(), run_prog, quick=800, thorough=6000, progs=sorted({x for x in P if x[1] == 'asan'}), rule='every case'),
    Facet('long paths', path_case(), run_path, quick=60, thorough=400, progs=sorted(set(P)), rule='every case'),
]
