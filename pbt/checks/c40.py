"""C40: results depend on the inputs and the seed only: no uninitialised memory, no dependence on the heap or on earlier calls.

The generators of the other properties drive executors built with MemorySanitizer, and a pair of ordinary executors whose
heaps are filled with different bytes and which have served different calls: their answers have to be the same, byte by byte."""
import contextlib, importlib, os
from hypothesis import strategies as st
from pbt.core import Facet, Ctx, Executor, Violation, ENV
import pbt.core as core

PROPERTY = 'C40'
ENV2 = dict(ENV, MALLOC_PERTURB_='90')

@contextlib.contextmanager
def swapped(env):
    old, core.ENV = core.ENV, env
    try: yield
    finally: core.ENV = old

class Trio:
    def __init__(self, ctx, name):
        p = ctx.paths
        self.m = Executor(p['exec', name, 'msan'], ctx.scratch)
        self.a = Executor(p['exec', name, 'opt'], ctx.scratch)
        self.b = Executor(p['exec', name, 'opt'], ctx.scratch, ENV2)
        self.n = 0
    def call(self, cmd, *args, timeout=30.0):
        r = self.m.call(cmd, *args, timeout=4 * timeout)
        self.a.call(cmd, *args, timeout=timeout)
        self.n += 1
        if self.n % 5 == 0:                         # a process with a different past, and one that prints more
            self.b.close()
            self.b.env = dict(ENV2, PBT_VERB='qvdx'[self.n // 5 % 4])
        self.b.call(cmd, *args, timeout=timeout)
        x, y = self.a.raw, self.b.raw
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            raise Violation('CRASH: %s answers differently for the same request: ...%s / ...%s' % (cmd, x[max(0, i - 40):i + 40], y[max(0, i - 40):i + 40]))
        return r
    def close(self):
        for e in (self.m, self.a, self.b): e.close()

class CTX(Ctx):
    def ex(self, name, flavour='asan'):
        if name not in self.exs: self.exs[name] = Trio(self, name)
        return self.exs[name]
    def run_prog(self, name, args, files=None, flavour='opt', timeout=120, stdin=b''):
        r = super().run_prog(name, args, files, 'msan', 4 * timeout, stdin)
        if 'MemorySanitizer' in r[2]:
            t = r[2][r[2].index('MemorySanitizer'):]
            raise Violation('CRASH: %s %s: %s' % (name, args, ' | '.join(x.strip()[:120] for x in t.splitlines()[:8])))
        x = super().run_prog(name, args, files, 'opt', timeout, stdin)
        with swapped(ENV2): y = super().run_prog(name, args, files, 'opt', timeout, stdin)
        if x != y:
            what = [w for w, p, q in zip(('exit status', 'standard output', 'standard error', 'output files'), x, y) if p != q]
            raise Violation('CRASH: two runs of %s %s with the same input and seed differ in %s' % (name, args, ', '.join(what)))
        return r

def wrap(f):
    def run(ctx, case):
        try: f.run(ctx, case)
        except Violation as e:
            if str(e).startswith('CRASH') or 'MemorySanitizer' in str(e): raise
    return run

FACETS = []
MODULES = ['c%02d' % i for i in [*range(1, 40), 45]]
for mname in MODULES:
    m = importlib.import_module('pbt.checks.' + mname)
    for f in m.FACETS:
        if f.name.endswith(', larger'): continue
        if any(fl == 'opt' for _, fl in f.exes): continue
        k = 16 if f.progs else 64
        FACETS.append(Facet('%s %s' % (m.PROPERTY, f.name), f.strategy, wrap(f), quick=max(8, min(k, f.quick // 8)), thorough=max(64, min(25 * k, f.thorough // 8)),
                            exes=[(n, fl) for n, _ in f.exes for fl in ('msan', 'opt')], progs=[(n, fl) for n, _ in f.progs for fl in ('msan', 'opt')],
                            rule='as for that property', shards=2))
