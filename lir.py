#!/usr/bin/env python3-vt
"""LIR: a verification-condition generator for integer functions.

Input: LLVM IR that rustc emits for small wrapper functions around the real code in /repo (everything
the wrapper calls is inlined from /repo's current source). Every path through the function is executed
symbolically over mathematical integers (wrap-around, overflow flags and panics are modelled exactly);
paths are pruned by z3. For each feasible path the obligations are: no panic is reachable, no
division by zero, no wrapping operation marked nuw/nsw wraps, and at each return the postcondition
(a Python predicate over arguments and result) holds. All obligations go to z3 (QF_LIA).

There is no loop bound: a loop is followed until its exit condition makes staying in it infeasible
(MAXSTEP only guards against divergence and raises Unsupported, never success).
"""
import re, sys, time
from z3 import (Int, IntVal, If, And, Or, Not, BoolVal, Solver, SolverFor, simplify, sat, unsat, is_true,
                is_false, is_int_value, Bool, Xor)

class Unsupported(Exception): pass

MAXSTEP = 20000
PORTFOLIO = [('QF_LIA', 0, 6000), (None, 0, 6000), ('QF_LIA', 7, 10000), (None, 3, 15000), ('QF_LIA', 11, 40000)]

TYPE = r'(?:i\d+|ptr|void|\{[^}]*\}|\[[^\]]*\]|<[^>]*>)'

def strip_meta(l):
    l = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', l)
    l = re.sub(r', !noundef !\d+', '', l)
    return l.split(' ;')[0].strip()

class Fn:
    def __init__(s, name, args, rtype): s.name, s.args, s.rtype, s.blocks, s.entry = name, args, rtype, {}, None

def parse(text):
    fns, globs = {}, {}
    lines = text.split('\n'); i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'@([\w.$"]+) = .*?constant (.*)', l)
        if m: globs[m.group(1)] = m.group(2)
        m = re.match(r'define .*?(?:range\([^)]*\) )?(%s) @([\w.$"]+)\((.*?)\)(?: .*)?\{$' % TYPE, l)
        if m:
            args = []
            depth = 0; cur = ''
            for ch in m.group(3) + ',':
                if ch in '([{<': depth += 1
                if ch in ')]}>': depth -= 1
                if ch == ',' and depth == 0:
                    if cur.strip(): args.append((cur.split()[0], cur.split()[-1]))
                    cur = ''
                else: cur += ch
            f = Fn(m.group(2).strip('"'), args, m.group(1)); cur = None; i += 1
            while lines[i] != '}':
                l = lines[i]
                b = re.match(r'^("?[\w.$-]+"?):', l)
                if b:
                    cur = b.group(1).strip('"'); f.blocks[cur] = []
                    if f.entry is None: f.entry = cur
                elif l.strip() and not l.strip().startswith(';') and not l.strip().startswith('#dbg'):
                    if cur is None:
                        cur = '0'; f.blocks[cur] = []; f.entry = cur
                    s = strip_meta(l)
                    if s.startswith('switch') and not s.endswith(']'):
                        while not strip_meta(lines[i]).endswith(']'):
                            i += 1; s += ' ' + strip_meta(lines[i])
                    f.blocks[cur].append(s)
                i += 1
            fns[f.name] = f
        i += 1
    for a, b in re.findall(r'^@([\w.$"]+) = .*?alias .*, ptr @([\w.$"]+)', text, re.M):
        if b.strip('"') in fns: fns[a.strip('"')] = fns[b.strip('"')]   # rustc merged identical functions
    return fns, globs

class V:
    """Unsigned integer value of width w with static bounds"""
    __slots__ = ('e', 'w', 'lo', 'hi')
    def __init__(s, e, w, lo=0, hi=None):
        s.w = w
        if isinstance(e, int):
            lo = hi = e; e = IntVal(e)
        s.e, s.lo, s.hi = e, lo, ((1 << w) - 1 if hi is None else hi)
    def const(s): return s.lo if s.lo == s.hi else None

class Path:
    def __init__(s, env, block, prev, mem): s.env, s.block, s.prev, s.mem = env, block, prev, mem

class Exec:
    def __init__(s, fns, globs, fn, pre, post):
        s.fns, s.globs, s.fn, s.pre, s.post = fns, globs, fn, pre, post
        s.solver = SolverFor('QF_LIA')
        s.queries = s.obligations = s.discharged = s.paths = 0
        s.time = 0.0; s.fail = None; s.fresh = 0

    def check(s, *c, need=True):
        """Satisfiability of the path condition with c. A portfolio: solver times on these queries are
        erratic. If all give up: Unsupported, or "satisfiable" where that is the safe answer (need=False)"""
        s.queries += 1; t = time.time()
        for logic, seed, ms in PORTFOLIO:
            q = SolverFor(logic) if logic else Solver()
            q.set('timeout', ms); q.set('random_seed', seed)
            q.add(s.solver.assertions()); q.add(*c); r = q.check()
            if r in (sat, unsat): break
        m = q.model() if r == sat else None
        s.time += time.time() - t
        if r not in (sat, unsat):
            if need: raise Unsupported('solver gave up: %s' % r)
            return True, None
        return r == sat, m

    def oblige(s, cond, what):
        """cond must hold on this path"""
        s.obligations += 1
        cond = simplify(cond) if not isinstance(cond, bool) else BoolVal(cond)
        if is_true(cond): s.discharged += 1; return True
        bad, m = s.check(Not(cond))
        if bad:
            s.fail = dict(what=what, model={a: (m.eval(v.e, model_completion=True).as_long() if isinstance(v, V) else
                                             int(is_true(m.eval(v, model_completion=True)))) for a, v in s.inputs.items()})
            return False
        s.discharged += 1
        return True

    def run(s):
        f = s.fn; env = {}; s.inputs = {}
        for ty, name in f.args:
            if ty == 'i1':
                v = Bool(name); env[name] = v
            else:
                m = re.fullmatch(r'i(\d+)', ty)
                if not m: raise Unsupported('argument type ' + ty)
                w = int(m.group(1)); v = V(Int(name), w); env[name] = v
                s.solver.add(v.e >= 0, v.e <= v.hi)
            s.inputs[name.lstrip('%')] = v
        pre = s.pre(**{k: (v.e if isinstance(v, V) else v) for k, v in s.inputs.items()})
        s.solver.add(pre)
        ok, _ = s.check()
        if not ok: raise Unsupported('vacuous precondition')
        s.go(Path(env, f.entry, None, {}), 0)
        return s.fail is None

    # --- values
    def val(s, p, tok, ty):
        tok = tok.strip()
        if tok.startswith('%'): return p.env[tok]
        if ty == 'i1':
            if tok in ('true', 'false'): return BoolVal(tok == 'true')
        m = re.fullmatch(r'i(\d+)', ty)
        if m and re.fullmatch(r'-?\d+', tok):
            w = int(m.group(1)); return V(int(tok) % (1 << w), w)
        if tok in ('undef', 'poison'): raise Unsupported('undef')
        m = re.fullmatch(r'@([\w.$"]+)', tok)
        if m: return ('glob', m.group(1).strip('"'), 0)
        raise Unsupported('operand %s %s' % (ty, tok))

    def wrap(s, e, w, lo, hi, nowrap):
        M = 1 << w
        if lo >= 0 and hi < M: return V(e, w, lo, hi)
        if nowrap:
            if not s.oblige(And(e >= 0, e < M), 'operation marked nuw wraps'): raise Unsupported('nuw')
            return V(e, w, max(lo, 0), min(hi, M - 1))
        if lo >= -M and hi < 2 * M:
            r = e
            if lo < 0: r = If(e < 0, e + M, e)
            if hi >= M: r = If(e >= M, e - M, r)
            return V(r, w)
        return V(e % M, w)

    def name(s, v):
        """Give a compound expression a name, to keep terms small"""
        if isinstance(v, V) and v.const() is None:
            s.fresh += 1; x = Int('t%d' % s.fresh)
            s.solver.add(x == v.e, x >= v.lo, x <= v.hi)
            return V(x, v.w, v.lo, v.hi)
        return v

    def udiv(s, a, b):
        c = b.const()
        if c is None:
            sat_, m = s.check()
            if sat_:
                k = m.eval(b.e, model_completion=True).as_long()
                if not s.check(b.e != k)[0]: c = k   # the path condition leaves one value
        if c is None:
            if not s.oblige(b.e > 0, 'division by zero'): return None
            raise Unsupported('division by a variable')
        if c == 0:
            s.oblige(BoolVal(False), 'division by zero'); return None
        if a.const() is not None: return V(a.const() // c, a.w)
        s.fresh += 1; q = Int('q%d' % s.fresh)
        s.solver.add(q * c <= a.e, a.e < q * c + c)
        return V(q, a.w, a.lo // c, a.hi // c)

    def mul(s, a, b, w, nowrap):
        if a.const() is None and b.const() is None: raise Unsupported('nonlinear')
        return s.wrap(a.e * b.e, w, a.lo * b.lo, a.hi * b.hi, nowrap)

    def shl(s, a, b, w, nowrap):
        c = b.const()
        if c is None: raise Unsupported('variable shift')
        return s.wrap(a.e * (1 << c), w, a.lo << c, a.hi << c, nowrap)

    def bitop(s, op, a, b, w):
        if a.const() is not None: a, b = b, a
        c = b.const()
        if c is None: raise Unsupported('bit operation on variables')
        if a.const() is not None:
            x = a.const(); return V({'and': x & c, 'or': x | c, 'xor': x ^ c}[op], w)
        if op == 'and' and c & (c + 1) == 0:
            if a.hi <= c: return a
            q = s.udiv(a, V(c + 1, w)); return V(a.e - q.e * (c + 1), w, 0, c)
        if op == 'and' and (c | ((1 << (c & -c).bit_length() - 1) - 1)) == (1 << w) - 1 and c:
            k = (c & -c); q = s.udiv(a, V(k, w)); return V(q.e * k, w)
        if op == 'xor' and c == (1 << w) - 1: return V(c - a.e, w, c - a.hi, c - a.lo)
        raise Unsupported('%s with %d' % (op, c))

    def icmp(s, pred, a, b):
        if not isinstance(a, V):
            if isinstance(a, tuple): raise Unsupported('pointer compare')
            return {'eq': a == b, 'ne': Xor(a, b)}.get(pred)
        if pred[0] == 's' and pred != 'samesign':
            h = 1 << (a.w - 1)
            def sg(v):
                if v.hi < h: return v.e
                return If(v.e >= h, v.e - 2 * h, v.e)
            x, y = sg(a), sg(b); pred = 'u' + pred[1:]
        else: x, y = a.e, b.e
        return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]

    # --- execution
    def go(s, p, steps):
        """Execute from the start of p.block; recursion only at branches"""
        while True:
            if s.fail: return
            block = s.fn.blocks[p.block]
            phis = {}
            for ins in block:
                m = re.match(r'(%%\S+) = phi (%s) (.*)' % TYPE, ins)
                if not m: break
                for v, b in re.findall(r'\[ (\S+|\{.*?\}), %("?[\w.$-]+"?) \]', m.group(3)):
                    if b.strip('"') == p.prev:
                        phis[m.group(1)] = s.val(p, v, m.group(2)); break
                else: raise Unsupported('phi ' + ins)
            p.env.update(phis)
            nxt = None
            for ins in block:
                if ' = phi ' in ins: continue
                steps += 1
                if steps > MAXSTEP: raise Unsupported('too many steps')
                r = s.step(p, ins)
                if s.fail: return
                if r is None: continue
                if r[0] == 'end': return
                nxt = r; break
            if nxt is None: raise Unsupported('block falls through')
            if nxt[0] == 'jump':
                p.prev, p.block = p.block, nxt[1]; continue
            # branch on several guarded targets
            live = []
            for g, t in nxt[1]:
                g = simplify(g)
                if is_false(g): continue
                if is_true(g): live = [(g, t)]; break
                if s.check(g, need=False)[0]: live.append((g, t))
            if not live: return
            for k, (g, t) in enumerate(live):
                if k == len(live) - 1 and len(live) == 1:
                    s.solver.push(); s.solver.add(g)
                    q = Path(p.env, t, p.block, p.mem)
                    s.go(q, steps); s.solver.pop(); return
                s.solver.push(); s.solver.add(g)
                s.go(Path(dict(p.env), t, p.block, {a: dict(b) for a, b in p.mem.items()}), steps)
                s.solver.pop()
                if s.fail: return
            return

    def ret(s, p, v):
        s.paths += 1
        args = {k: (x.e if isinstance(x, V) else x) for k, x in s.inputs.items()}
        for what, cond in s.post(v.e if isinstance(v, V) else v, **args):
            if not s.oblige(cond, what): return

    def step(s, p, ins):
        env = p.env
        if ins.startswith('br label'):
            return ('jump', re.match(r'br label %("?[\w.$-]+"?)', ins).group(1).strip('"'))
        m = re.match(r'br i1 (\S+), label %("?[\w.$-]+"?), label %("?[\w.$-]+"?)', ins)
        if m:
            c = s.val(p, m.group(1), 'i1')
            return ('branch', [(c, m.group(2).strip('"')), (Not(c), m.group(3).strip('"'))])
        m = re.match(r'switch (i\d+) (\S+), label %("?[\w.$-]+"?) \[(.*)\]', ins)
        if m:
            v = s.val(p, m.group(2), m.group(1)); cs = re.findall(r'i\d+ (-?\d+), label %("?[\w.$-]+"?)', m.group(4))
            if not isinstance(v, V): v = V(If(v, IntVal(1), IntVal(0)), 1)
            M = 1 << v.w
            out = [(v.e == int(c) % M, t.strip('"')) for c, t in cs]
            out.append((And([v.e != int(c) % M for c, _ in cs]), m.group(3).strip('"')))
            return ('branch', out)
        if ins.startswith('ret void'): s.ret(p, None); return ('end',)
        m = re.match(r'ret (%s) (.+)' % TYPE, ins)
        if m: s.ret(p, s.val(p, m.group(2), m.group(1))); return ('end',)
        if ins.startswith('unreachable'):
            s.oblige(BoolVal(False), 'unreachable code reached'); return ('end',)
        m = re.match(r'(?:(%\S+) = )?(?:tail |musttail |notail )?call (.*?)@([\w.$"]+)\((.*)\)', ins)
        if m: return s.call(p, *m.groups())
        m = re.match(r'(%\S+) = (.*)', ins)
        if not m:
            m = re.match(r'store (%s) (\S+), ptr (\S+?)(?:, align.*)?$' % TYPE, ins)
            if m:
                a = s.ptr(p, m.group(3)); p.mem.setdefault(a[1], {})[a[2]] = s.val(p, m.group(2), m.group(1)); return
            raise Unsupported(ins)
        dst, rhs = m.groups()
        m = re.match(r'(add|sub|mul|udiv|urem|shl|lshr|and|or|xor)((?: (?:nuw|nsw|exact|disjoint))*) (i\d+) (\S+), (\S+)$', rhs)
        if m:
            op, fl, ty, a, b = m.groups(); a, b = s.val(p, a, ty), s.val(p, b, ty)
            if ty == 'i1':
                env[dst] = {'and': lambda: And(a, b), 'or': lambda: Or(a, b), 'xor': lambda: Xor(a, b)}[op](); return
            w = a.w; nw = 'nuw' in fl
            if op == 'add': r = s.wrap(a.e + b.e, w, a.lo + b.lo, a.hi + b.hi, nw)
            elif op == 'sub': r = s.wrap(a.e - b.e, w, a.lo - b.hi, a.hi - b.lo, nw)
            elif op == 'mul': r = s.mul(a, b, w, nw)
            elif op == 'udiv': r = s.udiv(a, b)
            elif op == 'urem':
                q = s.udiv(a, b)
                r = None if q is None else V(simplify(a.e - q.e * b.e), w, 0, b.lo - 1) if a.const() is None else V(a.const() % b.const(), w)
            elif op == 'shl': r = s.shl(a, b, w, nw)
            elif op == 'lshr':
                if b.const() is None: raise Unsupported('variable shift')
                r = s.udiv(a, V(1 << b.const(), w + 1)); r = r and V(r.e, w, r.lo, r.hi)
            elif op == 'or' and 'disjoint' in fl: r = s.wrap(a.e + b.e, w, a.lo + b.lo, a.hi + b.hi, True)
            else: r = s.bitop(op, a, b, w)
            if r is None: return ('end',)
            env[dst] = s.name(r) if op not in ('udiv',) else r
            return
        m = re.match(r'icmp (?:samesign )?(\w+) (\S+) (\S+), (\S+)$', rhs)
        if m:
            pr, ty, a, b = m.groups(); r = s.icmp(pr, s.val(p, a, ty), s.val(p, b, ty))
            if r is None: raise Unsupported(rhs)
            env[dst] = simplify(r); return
        m = re.match(r'(zext|sext|trunc)(?: (?:nneg|nuw|nsw))* (i\d+) (\S+) to (i\d+)', rhs)
        if m:
            op, t1, a, t2 = m.groups(); a = s.val(p, a, t1); w = int(t2[1:])
            if op == 'zext':
                env[dst] = V(a.e, w, a.lo, a.hi) if isinstance(a, V) else s.name(V(If(a, IntVal(1), IntVal(0)), w, 0, 1))
            elif op == 'trunc':
                if w == 1:
                    q = s.udiv(a, V(2, a.w)); env[dst] = (a.e - 2 * q.e) == 1
                else: env[dst] = s.name(s.wrap(a.e, w, a.lo, a.hi, False) if a.hi < (2 << w) else V(a.e - s.udiv(a, V(1 << w, a.w)).e * (1 << w), w))
            else:
                if isinstance(a, V):
                    h = 1 << (a.w - 1)
                    env[dst] = V(a.e, w, a.lo, a.hi) if a.hi < h else s.name(V(If(a.e >= h, a.e + (1 << w) - 2 * h, a.e), w))
                else: env[dst] = s.name(V(If(a, IntVal((1 << w) - 1), IntVal(0)), w))
            return
        m = re.match(r'select i1 (\S+), (\S+) (\S+), (\S+) (\S+)$', rhs)
        if m:
            c, t1, a, t2, b = m.groups(); c = s.val(p, c, 'i1'); a, b = s.val(p, a, t1), s.val(p, b, t2)
            c = simplify(c)
            if is_true(c): env[dst] = a
            elif is_false(c): env[dst] = b
            elif isinstance(a, V): env[dst] = s.name(V(If(c, a.e, b.e), a.w, min(a.lo, b.lo), max(a.hi, b.hi)))
            elif isinstance(a, tuple): raise Unsupported('select of pointers')
            else: env[dst] = If(c, a, b)
            return
        m = re.match(r'extractvalue (\{.*?\}) (\S+), (\d+)$', rhs)
        if m: env[dst] = env[m.group(2)][int(m.group(3))]; return
        m = re.match(r'insertvalue (\{.*?\}) (%\S+|poison|undef|\{.*?\}), (\S+) (\S+), (\d+)$', rhs)
        if m:
            base = [None] * (m.group(1).count(',') + 1)
            if m.group(2).startswith('%'): base = list(env[m.group(2)])
            elif m.group(2).startswith('{'):
                for k, el in enumerate(m.group(2).strip('{} ').split(',')):
                    ty, tok = el.split()
                    if tok not in ('poison', 'undef'): base[k] = s.val(p, tok, ty)
            base[int(m.group(5))] = s.val(p, m.group(4), m.group(3)); env[dst] = base; return
        m = re.match(r'freeze (\S+) (\S+)', rhs)
        if m: env[dst] = s.val(p, m.group(2), m.group(1)); return
        m = re.match(r'alloca ', rhs)
        if m: env[dst] = ('mem', dst, 0); return
        m = re.match(r'getelementptr (?:inbounds |nuw |nusw )*(.+?), ptr (\S+), (.*)', rhs)
        if m:
            a = s.ptr(p, m.group(2)); idx = m.group(3)
            k = re.fullmatch(r'i\d+ (\S+)', idx)
            if m.group(1) in ('i8',) and k:
                o = s.val(p, k.group(1), 'i64'); c = o.const()
                if c is None: raise Unsupported('variable offset')
                env[dst] = (a[0], a[1], a[2] + c); return
            raise Unsupported(rhs)
        m = re.match(r'load (\S+), ptr (\S+?)(?:, .*)?$', rhs)
        if m:
            a = s.ptr(p, m.group(2))
            try: env[dst] = p.mem[a[1]][a[2]]
            except KeyError: raise Unsupported('load ' + rhs)
            return
        raise Unsupported(ins)

    def ptr(s, p, tok):
        v = s.val(p, tok, 'ptr')
        if not isinstance(v, tuple): raise Unsupported('pointer ' + tok)
        return v

    def call(s, p, dst, pre, fn, args):
        fn = fn.strip('"')
        def A():
            out = []; depth = 0; cur = ''
            for ch in args + ',':
                if ch in '([{': depth += 1
                if ch in ')]}': depth -= 1
                if ch == ',' and depth == 0:
                    t = cur.split(); out.append(s.val(p, t[-1], t[0])); cur = ''
                else: cur += ch
            return out
        m = re.match(r'llvm\.(umul|uadd|usub)\.with\.overflow\.i(\d+)', fn)
        if m:
            a, b = A(); w = int(m.group(2)); M = 1 << w; op = m.group(1)
            if op == 'umul':
                if a.const() is None and b.const() is None: raise Unsupported('nonlinear')
                e, lo, hi = a.e * b.e, a.lo * b.lo, a.hi * b.hi
            elif op == 'uadd': e, lo, hi = a.e + b.e, a.lo + b.lo, a.hi + b.hi
            else: e, lo, hi = a.e - b.e, a.lo - b.hi, a.hi - b.lo
            ov = simplify(Or(e < 0, e >= M)) if (lo < 0 or hi >= M) else BoolVal(False)
            # On a path with a decided flag the result is linear; otherwise exact modulo 2^w
            if is_false(ov): r = V(e, w, lo, hi)
            elif not s.check(ov, need=False)[0]: ov = BoolVal(False); r = V(e, w, max(lo, 0), min(hi, M - 1))
            else:
                s.fresh += 1; x = Int('o%d' % s.fresh)
                k = Int('k%d' % s.fresh)
                s.solver.add(x == e - k * M, x >= 0, x < M, ov == (k != 0)); r = V(x, w)
            p.env[dst] = [s.name(r), ov]; return
        m = re.match(r'llvm\.(uadd|usub)\.sat\.i(\d+)', fn)
        if m:
            a, b = A(); w = int(m.group(2)); M = 1 << w
            if m.group(1) == 'uadd': r = V(If(a.e + b.e >= M, IntVal(M - 1), a.e + b.e), w, min(a.lo + b.lo, M - 1), min(a.hi + b.hi, M - 1))
            else: r = V(If(a.e < b.e, IntVal(0), a.e - b.e), w, 0, a.hi)
            p.env[dst] = s.name(r); return
        m = re.match(r'llvm\.(umin|umax)\.i(\d+)', fn)
        if m:
            a, b = A(); mn = m.group(1) == 'umin'
            p.env[dst] = s.name(V(If((a.e < b.e) if mn else (a.e > b.e), a.e, b.e), a.w)); return
        if fn.startswith('llvm.assume') or fn.startswith('llvm.lifetime') or fn.startswith('llvm.experimental.noalias'):
            return
        if fn in s.fns: raise Unsupported('call of ' + fn)
        if 'panic' in fn or 'expect_failed' in fn or 'unwrap_failed' in fn or 'slice_index' in fn:
            k = re.search(r'panic_const_(\w+?)$', fn)
            s.oblige(BoolVal(False), 'panic reachable: %s' % (k.group(1) if k else fn)); return ('end',)
        raise Unsupported('call of ' + fn)

def verify(text, name, pre, post, parsed=None):
    """Returns (status, info): status 'proved', 'failed' or 'unsupported'"""
    fns, globs = parsed or parse(text)
    if name not in fns: return 'unsupported', dict(reason='function %s not in the IR' % name)
    x = Exec(fns, globs, fns[name], pre, post)
    t = time.time()
    try:
        ok = x.run()
    except Unsupported as e:
        return 'unsupported', dict(reason=str(e), obligations=x.obligations, discharged=x.discharged)
    except RecursionError:
        return 'unsupported', dict(reason='recursion', obligations=x.obligations, discharged=x.discharged)
    info = dict(obligations=x.obligations, discharged=x.discharged, paths=x.paths, queries=x.queries,
                solver_s=round(x.time, 2), wall_s=round(time.time() - t, 2))
    if ok and x.paths == 0: return 'unsupported', dict(reason='no path returns', **info)
    if not ok: info.update(x.fail)
    return ('proved' if ok else 'failed'), info
