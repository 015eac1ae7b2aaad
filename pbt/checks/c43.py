"""C43: nothing is kept: when a request is over and its results have been released, no memory and no open file is left."""
import importlib, subprocess
from pbt.core import Facet, Ctx, Executor, Violation, check

PROPERTY = 'C43'

def where(path, addrs):
    try: out = subprocess.run(['addr2line', '-f', '-s', '-e', path] + ['%#x' % (a - 1) for a in addrs], capture_output=True, text=True, timeout=20).stdout.split('\n')
    except Exception: return ''
    return ' < '.join('%s %s' % (f, l) for f, l in zip(out[::2], out[1::2]) if f not in ('??', 'main'))

class Leak(Executor):
    """Every request is served twice: what the second time allocates and does not release is lost for good."""
    def call(self, cmd, *args, timeout=30.0):
        super().call(cmd, *args, timeout=2 * timeout)
        r = super().call(cmd, *args, timeout=2 * timeout)
        n, sample = r.pop('_leaks')
        if n:
            raise Violation('LEAK: %s leaves %d allocations behind: %s' % (cmd, n, '; '.join('%d bytes from %s' % (x[0], where(self.path, x[1:])) for x in sample[:4])))
        self.clean += 1
        return r

class CTX(Ctx):
    def ex(self, name, flavour='asan'):
        if name not in self.exs:
            self.exs[name] = Leak(self.paths['exec', name, 'leak'], self.scratch)
            self.exs[name].clean = 0
        return self.exs[name]

def wrap(f):
    def run(ctx, case):
        c = CTX(ctx.paths, ctx.scratch) if not hasattr(ctx, 'leak') else ctx.leak
        ctx.leak = c
        before = sum(e.clean for e in c.exs.values())
        try: f.run(c, case)
        except Violation as e:
            if str(e).startswith('LEAK'): raise
        finally: ctx.exs.update(c.exs)
        ctx.nontrivial(sum(e.clean for e in c.exs.values()) > before)
    return run

FACETS = []
for i in [*range(1, 40), 45, 46]:
    m = importlib.import_module('pbt.checks.c%02d' % i)
    for f in m.FACETS:
        if f.name.endswith(', larger'): continue
        if f.progs or not f.exes: continue
        big = any(fl == 'opt' for _, fl in f.exes)          # statistical facets: many requests per case
        FACETS.append(Facet('%s %s' % (m.PROPERTY, f.name), f.strategy, wrap(f), quick=4 if big else max(8, min(64, f.quick // 8)), thorough=32 if big else max(64, min(1600, f.thorough // 8)),
                            exes=[(n, 'leak') for n, _ in f.exes], rule='a request was served and released everything', shards=2))
