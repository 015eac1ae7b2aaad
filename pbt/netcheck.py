"""Comparing a dumped C network with a model network."""
from .core import check, close, Violation

def check_net(dump, labels, wm, what='net', tol=1e-12, nums=None, degree=None):
    """dump: {"nodes":..,"adj":..}; labels: expected labels in order; wm: {(u,v): w} expected directed adjacencies."""
    check(dump is not None, '%s: no network', what)
    got = [x[0] for x in dump['nodes']]
    check(got == list(labels), '%s: nodes %r, expected %r', what, got, list(labels))
    nn = [x[1] for x in dump['nodes']]
    exp = list(range(len(labels))) if nums is None else nums
    check(nn == exp, '%s: node numbers %r, expected %r', what, nn, exp)
    seen = {}
    for u, lst in enumerate(dump['adj']):
        for r, node, lab, w, btw in lst:
            check(r >= 0, '%s: link of node %r points outside the network (%d)', what, labels[u], r)
            check(node == exp[r], '%s: link %r-%r carries number %d', what, labels[u], labels[r], node)
            check(lab == labels[r], '%s: link %r-%r carries label %r', what, labels[u], labels[r], lab)
            check((u, r) not in seen, '%s: link %r-%r present twice', what, labels[u], labels[r])
            seen[(u, r)] = w
    if set(seen) != set(wm):
        raise Violation('%s: links differ: extra %r missing %r' % (what, sorted(set(seen) - set(wm))[:6], sorted(set(wm) - set(seen))[:6]))
    for k, w in wm.items():
        if w is None: continue
        check(close(seen[k], w, tol), '%s: weight of %r is %r, expected %r', what, k, seen[k], w)
    return seen

def links_of(dump):
    """{(u, v): w} of a dumped network, raising on malformed structure or duplicates."""
    out = {}
    for u, lst in enumerate(dump['adj']):
        for r, node, lab, w, btw in lst:
            check(r >= 0, 'dangling link at node %d', u)
            check((u, r) not in out, 'duplicate link %d-%d', u, r)
            check(lab == dump['nodes'][r][0], 'link %d-%d carries label %r', u, r, lab)
            out[(u, r)] = w
    return out

def simple_symmetric(dump, what='net'):
    ls = links_of(dump)
    for (u, v) in ls:
        check(u != v, '%s: self-link at %d', what, u)
        check((v, u) in ls, '%s: link %d-%d visible from one end only', what, u, v)
    return {(u, v) for (u, v) in ls if u < v}
