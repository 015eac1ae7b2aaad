"""C30: the degeneracy term."""
from math import log
from hypothesis import strategies as st
from pbt.core import Facet, check
from .c27 import log_degeneracy, _degen

PROPERTY = 'C30'
EXACT, TABLE = 70, 150

def run(ctx, c):
    n = c['n']
    for e in ('mb', 'od'):
        a, b = ctx.ex(e).call('deg', 2, [n, n + 1])['d']
        check(b > a or n == 0 and b == a, '%s: the log-degeneracy of %d groups (%r) is not above that of %d (%r)', e, n + 1, b, n, a)
        for k, v in ((n, a), (n + 1, b)):
            if k <= 160:
                x = log_degeneracy(k)
                if k < EXACT: check(abs(v - x) <= 1e-6 * max(1.0, x), '%s: log-degeneracy of %d groups is %.9g, the exact logarithm is %.9g', e, k, v, x)
                else: check(abs(v - x) <= 0.01 * x, '%s: log-degeneracy of %d groups is %.9g, more than 1 %% from the exact %.9g', e, k, v, x)
            else:
                x = 1.4681 * k * (log(k) - 1)
                check(abs(v - x) <= 0.01 * x, '%s: log-degeneracy of %d groups is %.9g, far from the continuation %.9g', e, k, v, x)
    ctx.nontrivial(n >= 2)

FACETS = [Facet('table', st.one_of(st.integers(0, 160), st.integers(0, 5000)).map(lambda n: dict(n=n)), run, quick=2400, thorough=20000, exes=['mb', 'od'], rule='two or more groups')]
