#!/usr/bin/env python3-vt
"""Runs lir.py over the wrappers of /verif/arith. Contracts: see TABLES / zones.
Usage: arith_check.py IR_FILE OUT.json name..."""
import sys, json, os
sys.setrecursionlimit(50000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lir
from z3 import And, Or, Implies, BoolVal
from concurrent.futures import ProcessPoolExecutor

NECT = [(13500, 7), (11250, 7), (1120, 25), (2250, 12)]
TABLES = dict(nec=NECT, nec16=NECT, apple=NECT, necdebug=NECT,
              samsung=[(9000, 7), (6750, 7), (1120, 25), (2250, 12)],
              rc5=[(889, 12), (1778, 10)], rc6=[(444 * k, 12) for k in range(1, 7)],
              sbp=[(9000, 5), (5000, 5), (1000, 10), (2000, 10)],
              denon=[(5000, 8), (840, 10), (1680, 10)])
E8 = 10 ** 8
# N = nominal length in ticks = p f / 10^6
# must be recognised: N(1-t)+1 <= d <= N(1+t)(1-1/256)-3
def inner(p, t, f, d):
    n = p * f; return d * E8 >= n * (100 - t) + E8, (d + 3) * (E8 * 256) <= n * ((100 + t) * 255)
# may be recognised: N(1-t)-N/256-1 <= d <= N(1+t)
def outer(p, t, f, d):
    n = p * f; return (d + 1) * (E8 * 256) >= n * ((100 - t) * 256 - 100), d * E8 <= n * (100 + t)

def window_post(tab, hz=None):
    def g(r, d, f=None):
        if hz is not None: f = hz
        for i, (p, t) in enumerate(tab):
            yield 'symbol %d recognised only inside its window' % i, Implies(r == i, And(*outer(p, t, f, d)))
            yield 'symbol %d recognised everywhere inside its window' % i, Implies(And(*inner(p, t, f, d)),
                Or(r == i, *[And(r == j, *outer(*tab[j], f, d)) for j in range(i)]))
        yield 'nothing else is a symbol', Or(r < len(tab), r == 255, d == 0)
    return g

def contract(name):
    kind, proto, arg = name.split('_')
    if kind == 'w': return (lambda f, d: BoolVal(True)), window_post(TABLES[proto])
    if kind in 'fg': return (lambda d: BoolVal(True)), window_post(TABLES[proto], int(arg))
    if kind == 't':
        k = int(arg)
        lo, hi = (40_000, 9_670_000) if proto == 'rc6' else (20_000, 400_000_000)
        return (lambda f: And(f >= lo, f <= hi)), (lambda r, f: [('encoded pulse is decoded as symbol %d' % k, r == k)])

def concrete_bad(name, model, result):
    """Evaluate the postcondition on concrete values: the failed clause or None"""
    pre, post = contract(name)
    from z3 import IntVal, simplify, is_false
    for what, c in post(IntVal(result), **{k: IntVal(v) for k, v in model.items()}):
        if is_false(simplify(c)): return what
    return None

def one(a):
    ir, name = a
    pre, post = contract(name)
    if one.panics: pre, post = (lambda **k: BoolVal(True)), (lambda r, **k: [])
    st, info = lir.verify(None, name, pre, post, one.parsed)
    return name, st, info

def init(ir, panics): one.parsed, one.panics = lir.parse(open(ir).read()), panics

if __name__ == '__main__':
    if sys.argv[1] == '--judge':
        bad = concrete_bad(sys.argv[2], json.loads(sys.argv[3]), int(sys.argv[4]))
        print(bad or 'as specified'); sys.exit(1 if bad else 0)
    ir, out, names = sys.argv[1], sys.argv[2], sys.argv[3:]
    panics = '--panics' in names
    names = [n for n in names if n != '--panics']
    with ProcessPoolExecutor(8, initializer=init, initargs=(ir, panics)) as ex:
        res = {n: dict(status=s, **i) for n, s, i in ex.map(one, [(ir, n) for n in names])}
    json.dump(res, open(out, 'w'), indent=1)
    for n, r in res.items(): print(n, r['status'], r.get('obligations'), r.get('solver_s'), r.get('wall_s'), r.get('reason', ''), r.get('what', ''), r.get('model', ''))
