"""C44: no draw is fatal: whatever the random sequence, and with its extreme values, results stay valid."""
import importlib
from hypothesis import strategies as st
from pbt.core import check, Facet, Ctx, Executor, Violation, ENV

PROPERTY = 'C44'
EDGE = dict(ENV, PBT_RNG='edge')

class CTX(Ctx):
    def ex(self, name, flavour='asan'):
        if (name, flavour) not in self.exs: self.exs[name, flavour] = Executor(self.paths['exec', name, flavour], self.scratch, EDGE)
        return self.exs[name, flavour]

def wrap(f):
    def run(ctx, case):
        c = CTX(ctx.paths, ctx.scratch) if not hasattr(ctx, 'edge') else ctx.edge
        ctx.edge = c; c.begin()
        try: f.run(c, case)
        finally: ctx.exs.update(c.exs)
        ctx.nontrivial(c._nontrivial)
    return run

# Not served: estimates of the law of the draws themselves or of the quality they reach; dynamics which start from places drawn, and may coincide when
# extreme draws repeat (two exactly equal places have no direction of repulsion).
SKIP = {('C11', 'geom'), ('C16', 'quality'), ('C39', 'dynamics'), ('C39', 'long runs')}

# The geometric law is drawn by counting, so extreme draws give small numbers: the generator never repeats its largest value for long.
geom = st.tuples(st.floats(0.05, 1.0), st.integers(0, 2 ** 31)).map(lambda t: dict(p=t[0], seed=t[1]))
def run_geom(ctx, c):
    r = ctx.ex('graph').call('geom', c['p'], 400, c['seed'])
    check(r['lo'] == 0, 'geometric(%g): %d was drawn', c['p'], r['lo'])
    check(r['hi'] <= 1000 + 100 / c['p'], 'geometric(%g): %d was drawn', c['p'], r['hi'])
    ctx.nontrivial(c['p'] < 1)
FACETS = []
for i in range(1, 40):
    m = importlib.import_module('pbt.checks.c%02d' % i)
    for f in m.FACETS:
        if (m.PROPERTY, f.name) in SKIP or f.name.endswith(', larger') or f.progs or not f.exes or 'opt' in [fl for _, fl in f.exes]: continue
        FACETS.append(Facet('%s %s' % (m.PROPERTY, f.name), f.strategy, wrap(f), quick=max(8, min(100, f.quick // 6)), thorough=max(64, min(4000, f.thorough // 4)),
                            exes=f.exes, rule=f.rule, shards=4))
FACETS.append(Facet('geometric law', geom, wrap(Facet('', geom, run_geom)), quick=400, thorough=4000, exes=['graph'], rule='p below 1'))
