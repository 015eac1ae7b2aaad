"""C46: the search tree of lib/search.c is a balanced ordered map; histories against a model."""
import math, random
from hypothesis import strategies as st
from pbt.core import Facet, Raw, check, eq
from pbt import gen

PROPERTY = 'C46'
OPS = 'ssssssfffddddw'

@st.composite
def case(draw):
    big = draw(st.integers(0, 9)) == 0
    n = draw(st.integers(40, 400)) if big else draw(st.integers(1, 14))
    keys = ['k%d' % i for i in range(n)] if big else draw(gen.labels(n))
    if big:
        R = random.Random(draw(st.integers(0, 2 ** 32)))
        order = draw(st.sampled_from(['up', 'down', 'random', 'random', 'zigzag']))
        first = sorted(range(n), key=lambda i: keys[i])
        if order == 'down': first.reverse()
        if order == 'random': R.shuffle(first)
        if order == 'zigzag': first = [first[i // 2] if i % 2 else first[-1 - i // 2] for i in range(n)]
        ops = [['s', i] for i in first] + [['w', 0]]
        for _ in range(R.randint(0, 2 * n)): ops.append([R.choice('sfddd'), R.randrange(n)])
        ops.append(['w', 0])
    else:
        ops = [[draw(st.sampled_from(OPS)), draw(st.integers(0, n - 1))] for _ in range(draw(st.integers(0, 40)))]
        if draw(st.integers(0, 5)) == 0: ops.insert(draw(st.integers(0, len(ops))), ['x', 0])
        ops.append(['w', 0])
    return dict(keys=keys, ops=ops)

def walk(w, model):
    """the calls of twalk, against the ordered keys"""
    inorder = [k for v, k, d in w if v in (1, 3)]
    eq('keys in the order of the walk', [k.encode('utf-8', 'surrogateescape') for k in inorder], sorted(k.encode('utf-8', 'surrogateescape') for k in model))
    stack = []
    for v, k, d in w:
        if v == 0: eq('depth of %r' % k, d, len(stack)); stack.append([k, 0])
        elif v == 1: check(stack and stack[-1] == [k, 0], 'postorder call of %r out of place', k); stack[-1][1] = 1
        elif v == 2: check(stack and stack[-1] == [k, 1], 'endorder call of %r out of place', k); stack.pop()
        else: eq('depth of %r' % k, d, len(stack))
    check(not stack, 'inner nodes not ended: %r', stack)

def run(ctx, c):
    keys = c['keys']
    args = []
    for op, i in c['ops']: args += [Raw(op)] + ([keys[i]] if op in 'sfd' else [])
    r = ctx.ex('tree').call('tree', len(c['ops']), args)
    model = set()
    deleted = False
    for t, ((op, i), x) in enumerate(zip(c['ops'], r['r'])):
        k = keys[i]; what = 'operation %d (%s %r)' % (t, op, k)
        if op in 'sfd':
            known = k in model
            check(x[2] <= 2 * math.log2(len(model) + 1) + 3, '%s compares %d times with %d keys in the tree', what, x[2], len(model))
        if op == 's':
            eq(what + ': new', bool(x[0]), not known); eq(what + ': key', x[1], k)
            model.add(k)
        elif op == 'f':
            eq(what + ': found', bool(x[0]), known); eq(what + ': key', x[1], k if known else '')
        elif op == 'd':
            eq(what + ': deleted', bool(x[0]), known)
            deleted |= known
            model.discard(k)
        elif op == 'w': walk(x[0], model)
        elif op == 'x':
            eq('keys released with the tree', sorted(x[0]), sorted(model)); model = set()
            ctx.label('released')
    eq('keys released at the end', sorted(r['rest']), sorted(model))
    if len(c['ops']) > 45: ctx.label('large')
    ctx.nontrivial(deleted and len(keys) >= 4)

FACETS = [Facet('tree', case(), run, quick=6000, thorough=100000, exes=['tree'], rule='a key was deleted from a tree over four or more keys')]
