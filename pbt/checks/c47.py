"""C47: the summary of a network file that the graphical front end shows."""
import os, sys, subprocess, json
from hypothesis import strategies as st
from pbt.core import Facet, REPO, VERIF, ENV, Violation, check, eq
from pbt import gen

PROPERTY = 'C47'
SERVER = '''
import sys, json
sys.dont_write_bytecode = True
src = open(sys.argv[1]).read()
try: code = compile(src, sys.argv[1], 'exec')
except SyntaxError: code = None
ns = {'__name__': 'network'}
if code: exec(code, ns)
f = ns.get('read_undirected_network')
print(json.dumps(bool(f)), flush=True)
for line in sys.stdin:
    try: r = list(f(json.loads(line)))
    except Exception as e: r = '%s: %s' % (type(e).__name__, e)
    print(json.dumps(r), flush=True)
'''

def server(ctx):
    """a Python of its own for the module of the tree"""
    if getattr(ctx, 'gui', None) is None or ctx.gui.poll() is not None:
        p = os.path.join(REPO, 'frontend', 'network.py')
        if not os.path.exists(p): return None
        ctx.gui = subprocess.Popen([sys.executable, '-c', SERVER, p], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=dict(ENV, PYTHONIOENCODING='utf-8', PYTHONUTF8='1'))
        ctx.gui_ok = json.loads(ctx.gui.stdout.readline() or 'false')
    return ctx.gui if ctx.gui_ok else None

@st.composite
def case(draw):
    n = draw(st.integers(1, 9))
    if draw(st.booleans()):
        # labels that look alike when they are put together, cut or folded
        lab = draw(st.lists(st.text(draw(st.sampled_from(['12', 'ab', 'aA', '1,', "a'", 'x-', '0.'])), min_size=1, max_size=4), min_size=n, max_size=n, unique=True))
    else: lab = draw(gen.labels(n, exotic=False))
    at = st.integers(0, n - 1)
    rows = [[lab[draw(at)], lab[draw(at)]] for _ in range(draw(st.integers(0, 14)))]
    for _ in range(draw(st.integers(0, 2))):
        if rows: r = draw(st.sampled_from(rows)); rows.insert(draw(st.integers(0, len(rows))), r[::-1] if draw(st.booleans()) else list(r))
    bad = draw(st.integers(0, 4)) == 0
    if bad: rows.insert(draw(st.integers(0, len(rows))), draw(st.sampled_from([[], ['a'], ['a', 'b', '1'], ['a', 'b', 'c', 'd']])))
    text = ''.join(draw(st.sampled_from(['', ' ', '\t'])) + draw(st.sampled_from([' ', '\t', '  '])).join(r) + draw(st.sampled_from(['', ' ', '\t'])) + '\n' for r in rows)
    if rows and rows[-1] and draw(st.integers(0, 4)) == 0: text = text[:-1]
    return dict(rows=rows, text=text, bad=bad)

def run(ctx, c):
    g = server(ctx)
    if g is None: ctx.label('function absent'); return
    p = os.path.join(ctx.scratch, 'gui.net')
    with open(p, 'w') as f: f.write(c['text'])
    try:
        g.stdin.write(json.dumps(p) + '\n'); g.stdin.flush()
        r = json.loads(g.stdout.readline())
    except (OSError, ValueError) as e: raise Violation('the reader of the front end ended: %s' % e)
    check(isinstance(r, list), 'reading %r: %s', c['text'], r)
    rows = c['rows']
    if any(len(x) != 2 for x in rows): want = [0, 0, 0]; ctx.label('refused')
    else: want = [1, len({a for x in rows for a in x}), len({frozenset(x) for x in rows})]
    eq('(valid, nodes, links)', r, want)
    eq('the file', open(p).read(), c['text'])
    ctx.nontrivial(want[0] == 1 and want[2] < len(rows))

FACETS = [Facet('summary', case(), run, quick=3000, thorough=60000, rule='a valid file with a repeated link')]
