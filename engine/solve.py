"""Back ends: z3 (in process), cvc5 (SMT-LIB), and the exact rational-function
normal form; plus numeric refutation by sampling.  Refutation never proves."""
import time, math, random, subprocess, os, tempfile
from fractions import Fraction
import z3
import term as tm
from term import T, Unsupported
import poly

def deps(t, memo={}):
    """set of leaf atoms of t"""
    r = memo.get(t)
    if r is not None: return r
    st = [t]
    while st:
        x = st[-1]
        if x in memo: st.pop(); continue
        ch = children(x)
        todo = [c for c in ch if c not in memo]
        if todo: st.extend(todo); continue
        if not ch:
            memo[x] = frozenset() if x.op in ('rc', 'true', 'false') or (x.op == 'uf' and x.args[0] == 'pi') else frozenset((x,))
        else:
            s = frozenset().union(*[memo[c] for c in ch])
            if x.op == 'sel': s = s | frozenset((x.args[0],))
            memo[x] = s
        st.pop()
    return memo[t]

def children(x):
    op = x.op
    if op == 'ip':
        return [a for m, c in x.args for a, e in m]
    if op in ('rv', 'iv', 'bv', 'rc', 'true', 'false'): return []
    return [a for a in x.args if isinstance(a, T)]

def topo(roots, known=()):
    seen = {}; out = []
    st = [(r, 0) for r in roots]
    while st:
        x, ph = st.pop()
        if ph: out.append(x); continue
        if x in seen or x in known: continue
        seen[x] = 1
        st.append((x, 1))
        for c in children(x):
            if c not in seen: st.append((c, 0))
    return out

class Z3C(object):
    """term -> z3 translation"""
    def __init__(self):
        self.memo = {}
        self.axioms = {}
        self.names = {}
        self.leaf = {}

    def conv(self, t):
        if not isinstance(t, T):
            if isinstance(t, bool): return z3.BoolVal(t)
            return z3.IntVal(t)
        m = self.memo
        if t in m: return m[t]
        for x in topo([t], m):
            if x in m: continue
            m[x] = self.c1(x)
        return m[t]

    def a(self, x):
        if not isinstance(x, T):
            return z3.BoolVal(x) if isinstance(x, bool) else z3.IntVal(x)
        return self.memo[x]

    def var(self, x, sort, nm):
        v = z3.Real(nm) if sort == 'R' else z3.Int(nm) if sort == 'I' else z3.Bool(nm)
        self.leaf[nm] = x
        return v

    def c1(self, x):
        op = x.op; a = x.args
        if op == 'rv': return self.var(x, 'R', a[0])
        if op == 'iv': return self.var(x, 'I', a[0])
        if op == 'bv': return z3.Bool(a[0])
        if op == 'rc': return z3.RealVal(a[0])
        if op == 'add': return self.a(a[0]) + self.a(a[1])
        if op == 'mul': return self.a(a[0]) * self.a(a[1])
        if op == 'div': return self.a(a[0]) / self.a(a[1])
        if op == 'neg': return -self.a(a[0])
        if op == 'toreal': return z3.ToReal(self.a(a[0]))
        if op == 'floor': return z3.ToInt(self.a(a[0]))
        if op == 'idiv':
            q = self.a(a[0]) / self.a(a[1])
            return q
        if op == 'ip':
            r = None
            for m, c in a:
                t = None
                for at, e in m:
                    for _ in range(e):
                        t = self.a(at) if t is None else t * self.a(at)
                t = z3.IntVal(c) if t is None else (t if c == 1 else c * t)
                r = t if r is None else r + t
            return r
        if op == 'ite': return z3.If(self.a(a[0]), self.a(a[1]), self.a(a[2]))
        if op == 'lt': 
            return self.a(a[0]) < self.a(a[1])
        if op == 'le': return self.a(a[0]) <= self.a(a[1])
        if op == 'eq': return self.a(a[0]) == self.a(a[1])
        if op == 'and': return z3.And(self.a(a[0]), self.a(a[1]))
        if op == 'or': return z3.Or(self.a(a[0]), self.a(a[1]))
        if op == 'not': return z3.Not(self.a(a[0]))
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'sel':
            if not isinstance(a[1], T):
                return self.var(x, x.sort, '%s[%d]' % (a[0], a[1]))
            f = z3.Function(a[0], z3.IntSort(), z3.RealSort() if x.sort == 'R' else z3.IntSort())
            return f(self.a(a[1]))
        if op == 'uf':
            n = a[0]
            nm = '%s!%d' % (n, x.id)
            v = z3.Real(nm)
            ax = []
            if n == 'sqrt':
                r = self.a(a[1])
                ax = [z3.Implies(r >= 0, z3.And(v >= 0, v * v == r))]
            elif n in ('sin', 'cos'):
                o = tm.mk('uf', ('cos' if n == 'sin' else 'sin', a[1]), 'R')
                ov = z3.Real('%s!%d' % (o.args[0], o.id))
                ax = [v * v + ov * ov == 1]
            elif n == 'tan':
                s = tm.mk('uf', ('sin', a[1]), 'R'); c = tm.mk('uf', ('cos', a[1]), 'R')
                sv = z3.Real('sin!%d' % s.id); cv = z3.Real('cos!%d' % c.id)
                ax = [v * cv == sv, sv * sv + cv * cv == 1]
            elif n == 'exp': ax = [v > 0]
            elif n == 'pow': ax = [z3.Implies(self.a(a[1]) > 0, v > 0)]
            elif n == 'pi': ax = [v > z3.RealVal('3.14159265358979'), v < z3.RealVal('3.1415926535898')]
            elif n == 'atan': ax = [v > z3.RealVal('-1.5707963267949'), v < z3.RealVal('1.5707963267949'),
                                    z3.Implies(self.a(a[1]) > 0, v > 0), z3.Implies(self.a(a[1]) < 0, v < 0), z3.Implies(self.a(a[1]) == 0, v == 0),
                                    z3.Implies(self.a(a[1]) <= 1, v <= z3.RealVal('0.78539816339745')), z3.Implies(self.a(a[1]) >= -1, v >= z3.RealVal('-0.78539816339745'))]
            elif n == 'acos': ax = [v >= 0, v <= z3.RealVal('3.1415926535898')]
            elif n == 'asin': ax = [v >= z3.RealVal('-1.5707963267949'), v <= z3.RealVal('1.5707963267949')]
            elif n == 'atan2': ax = [v >= z3.RealVal('-3.1415926535898'), v <= z3.RealVal('3.1415926535898')]
            self.axioms[x] = ax
            return v
        raise Unsupported('z3 translation of ' + op)

    def axs(self, terms):
        out = []
        for x in topo(terms):
            ax = self.axioms.get(x)
            if ax: out += ax
        return out

# ------------------------------------------------------------------ numeric evaluation
class Undefined(Exception):
    pass

def evalf(roots, val, mp=None):
    """evaluate terms with numeric leaf valuation val: T -> number (Fractions/ints/floats); mp = mpmath module for high precision"""
    m = {}
    if mp is None:
        M = math
        cv = float
    else:
        M = mp
        cv = lambda f: mp.mpf(f.numerator) / mp.mpf(f.denominator) if isinstance(f, Fraction) else mp.mpf(f)
    for x in topo(roots):
        op = x.op; a = x.args
        g = lambda y: m[y] if isinstance(y, T) else y
        try:
            if op == 'rc': v = cv(a[0])
            elif op == 'rv': v = cv(val(x))
            elif op == 'iv': v = int(val(x))
            elif op == 'bv': v = bool(val(x))
            elif op == 'add': v = m[a[0]] + m[a[1]]
            elif op == 'mul': v = m[a[0]] * m[a[1]]
            elif op == 'div':
                if m[a[1]] == 0: raise Undefined()
                v = m[a[0]] / m[a[1]]
            elif op == 'neg': v = -m[a[0]]
            elif op == 'toreal': v = cv(g(a[0]))
            elif op == 'floor': v = int(M.floor(m[a[0]]))
            elif op == 'idiv':
                if g(a[1]) == 0: raise Undefined()
                v = g(a[0]) // g(a[1])
            elif op == 'ip':
                v = 0
                for mm, c in a:
                    t = c
                    for at, e in mm: t *= m[at] ** e
                    v += t
            elif op == 'ite': v = g(a[1]) if m[a[0]] else g(a[2])
            elif op == 'lt': v = g(a[0]) < g(a[1])
            elif op == 'le': v = g(a[0]) <= g(a[1])
            elif op == 'eq': v = g(a[0]) == g(a[1])
            elif op == 'and': v = m[a[0]] and m[a[1]]
            elif op == 'or': v = m[a[0]] or m[a[1]]
            elif op == 'not': v = not m[a[0]]
            elif op == 'true': v = True
            elif op == 'false': v = False
            elif op == 'sel':
                v = val(('sel', a[0], g(a[1])))
                v = cv(v) if x.sort == 'R' else int(v)
            elif op == 'uf':
                n = a[0]
                if n == 'pi': v = +M.pi if mp else math.pi
                elif n == 'pow': v = M.power(m[a[1]], m[a[2]]) if mp else math.pow(m[a[1]], m[a[2]])
                elif n == 'sqrt':
                    if m[a[1]] < 0: raise Undefined()
                    v = M.sqrt(m[a[1]])
                elif n == 'atan2': v = M.atan2(m[a[1]], m[a[2]])
                else:
                    z = m[a[1]]
                    if n == 'log' and z <= 0: raise Undefined()
                    if n in ('asin', 'acos') and abs(z) > 1: raise Undefined()
                    v = getattr(M, n)(z)
            else: raise Unsupported('eval ' + op)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undefined()
        m[x] = v
    return m

class Lazy(object):
    """bool evaluation where undefined subterms under a false ite branch are tolerated is not attempted; see evalf"""

def leaves(roots):
    return [x for x in topo(roots) if x.op in ('rv', 'iv', 'bv', 'sel')]

class Solver(object):
    def __init__(self, ms=400):
        self.z = Z3C()
        self.cache = {}
        self.smemo = {}
        self.stat = dict(queries=0, z3time=0.0, cvc5time=0.0, castime=0.0, unknown=0)
        self.ms = ms
        self.rng = random.Random(12345)

    def slice(self, pc, c):
        d = set(deps(c))
        rem = [(p, deps(p)) for p in pc if isinstance(p, T)]
        out = []
        ch = True
        while ch and rem:
            ch = False
            nr = []
            for p, dp in rem:
                if dp & d:
                    out.append(p); 
                    if not dp <= d: d |= dp; ch = True
                    else: ch = True
                else: nr.append((p, dp))
            rem = nr
        return out

    def z3check(self, cons, ms):
        t0 = time.time()
        s = z3.SolverFor('QF_NIRA') if False else z3.Solver()
        s.set('timeout', int(ms))
        for c in cons: s.add(self.z.conv(c))
        for a in self.z.axs(cons): s.add(a)
        r = s.check()
        self.stat['queries'] += 1
        self.stat['z3time'] += time.time() - t0
        return r, s

    def simple(self, p):
        """(var, lower?, value, strict) of a comparison of a real variable with a constant"""
        if isinstance(p, T) and p.op in ('lt', 'le'):
            a, b = p.args
            if not isinstance(a, T) or not isinstance(b, T): return None
            if a.op == 'rc' and b.op == 'rv': return (b, True, a.args[0], p.op == 'lt')
            if b.op == 'rc' and a.op == 'rv': return (a, False, b.args[0], p.op == 'lt')
        return None

    def quick(self, pc, c):
        """False: c contradicts, True: c follows from a bound in pc on its variable; None: neither"""
        q = self.simple(c)
        if q is None: return None
        v, low, k, st = q
        for p in pc:
            r = self.smemo.get(p) if isinstance(p, T) else None
            if r is None:
                if not isinstance(p, T): continue
                r = self.smemo[p] = self.simple(p) or ()
            if not r or r[0] is not v: continue
            if r[1] == low:
                if (r[2] > k or (r[2] == k and (r[3] or not st))) if low else (r[2] < k or (r[2] == k and (r[3] or not st))): return True
            else:
                if (r[2] < k or (r[2] == k and (r[3] or st))) if low else (r[2] > k or (r[2] == k and (r[3] or st))): return False
        return None

    def feasible(self, pc, c):
        if c is False: return False
        if isinstance(c, T):
            r = self.quick(pc, c)
            if r is not None: return r
        if c is True or c is tm.TRUE:
            # whole pc
            key = ('all', frozenset(p.id for p in pc))
            r = self.cache.get(key)
            if r is None:
                r, s = self.z3check([p for p in pc], self.ms * 2)
                r = r != z3.unsat
                self.cache[key] = r
            return r
        sl = self.slice(pc, c)
        ids = frozenset(p.id for p in sl)
        if c.id in ids: return True
        nc = tm.bnot(c)
        if isinstance(nc, T) and nc.id in ids: return False
        key = (ids, c.id)
        r = self.cache.get(key)
        if r is None:
            r, s = self.z3check(sl + [c], self.ms)
            if r == z3.unknown: self.stat['unknown'] += 1
            r = r != z3.unsat
            self.cache[key] = r
        return r

    def entails(self, pc, c):
        if not isinstance(c, T): return bool(c)
        nc = tm.bnot(c)
        if not isinstance(nc, T): return (not nc)
        return True if not self.feasible(pc, nc) else None

    # ---------------------------------------------------------------- full proof attempt of an obligation
    def prove(self, ob, budget=60.0):
        """returns (status, backend, model) status in proved / refuted / unknown"""
        t0 = time.time()
        c = ob['cond']
        if c is True or c is tm.TRUE: return ('proved', 'trivial', None)
        pc = ob['pc']
        if c is False or c is tm.FALSE:
            # path reachable?
            r, s = self.z3check(pc, 5000)
            if r == z3.unsat: return ('proved', 'z3', None)
            m = self.sample(pc, tm.FALSE, pc_only=True)
            if m is None and r == z3.sat: m = self.model(s, pc)
            if m is None and r != z3.sat: return ('unknown', 'z3', None)
            return ('refuted', 'z3', m)
        if ob['kind'] in ('eq', 'eqtol'):
            return self.prove_eq(ob, budget)
        return self.prove_bool(pc, c, budget)

    def conj(self, c):
        out = []; st = [c]
        while st:
            x = st.pop()
            if isinstance(x, T) and x.op == 'and': st += list(x.args)
            else: out.append(x)
        return out

    def prove_bool(self, pc, c, budget):
        be = set()
        unk = False
        for part in self.conj(c):
            r = self.prove_bool1(pc, part, budget)
            if r[0] == 'refuted': return r
            if r[0] == 'unknown': unk = True
            be.add(r[1])
        if unk: return ('unknown', '+'.join(sorted(be)), None)
        return ('proved', '+'.join(sorted(be)), None)

    def prove_bool1(self, pc, c, budget):
        nc = tm.bnot(c)
        if not isinstance(nc, T):
            return ('proved', 'trivial', None) if not nc else self.prove(dict(kind='check', cond=False, pc=pc), budget)
        sl = self.slice(pc, nc)
        if any(p is nc for p in sl) is False and any(p is c for p in sl): return ('proved', 'trivial', None)
        if c.op == 'eq' and not (isinstance(c.args[1], int)) :
            r = self.prove_eq(dict(pc=pc, data=(c.args[0], c.args[1]), kind='eq'), budget, exact=True)
            if r[0] == 'proved': return r
        r, s = self.z3check(sl + [nc], min(budget, 5) * 1000)
        if r == z3.unsat: return ('proved', 'z3', None)
        if r == z3.sat:
            m = self.model(s, pc + [nc])
            if self.validate(pc, nc, m): return ('refuted', 'z3', m)
        m = self.sample(pc, c)
        if m is not None: return ('refuted', 'sampling', m)
        if r == z3.sat:
            # countermodel of the abstraction only (uninterpreted functions)
            pass
        r2 = self.cvc5(sl + [nc], budget)
        if r2 == 'unsat': return ('proved', 'cvc5', None)
        r, s = self.z3check(sl + [nc], budget * 1000)
        if r == z3.unsat: return ('proved', 'z3', None)
        if r == z3.sat:
            m = self.model(s, pc + [nc])
            if self.validate(pc, nc, m): return ('refuted', 'z3', m)
            return ('unknown', 'z3', m)
        return ('unknown', 'z3+cvc5', None)

    def model(self, s, terms):
        mod = s.model()
        d = {}
        for x in leaves(terms):
            if x.op == 'sel' and isinstance(x.args[1], T): continue
            try:
                v = mod.eval(self.z.conv(x), model_completion=True)
                d[x] = z3num(v)
            except Exception:
                d[x] = 0
        # function interpretations of symbolic arrays
        for dd in mod.decls():
            if dd.arity() == 1:
                fi = mod[dd]
                try:
                    for i in range(fi.num_entries()):
                        e = fi.entry(i)
                        d[('sel', dd.name(), e.arg_value(0).as_long())] = z3num(e.value())
                    d[('selelse', dd.name())] = z3num(fi.else_value())
                except Exception: pass
        return d

    def valf(self, m):
        def val(x):
            if isinstance(x, tuple):
                v = m.get(x)
                if v is None: 
                    v = m.get(tm.mk('sel', (x[1], x[2]), 'R'))
                if v is None: v = m.get(('selelse', x[1]), 0)
                return v
            v = m.get(x)
            if v is None: return 0
            return v
        return val

    def validate(self, pc, nc, m):
        """does the numeric model really satisfy pc and nc (true semantics of sqrt, sin, ...)?"""
        import mpmath
        roots = [p for p in pc if isinstance(p, T)] + [nc]
        try:
            with mpmath.workdps(60):
                ev = evalf(roots, self.valf(m), mpmath)
            return all(bool(ev[r]) for r in roots)
        except (Undefined, Unsupported, AttributeError, TypeError):
            return False

    def randval(self, x, k, bd={}):
        r = self.rng
        if x.op == 'iv':
            lo, hi = tm.interval(x)
            if lo is None and hi is None: lo, hi = -20, 20
            elif lo is None: lo = hi - 40
            elif hi is None: hi = lo + 40
            if r.random() < 0.25: return r.choice([lo, hi, min(hi, lo + 1), max(lo, hi - 1)])
            return r.randint(lo, hi)
        if x.op == 'bv': return r.random() < 0.5
        lo, hi = (tm.rinterval(x) if x.op == 'rv' else (None, None))
        b = bd.get(x)
        if b:
            if b[0] is not None and (lo is None or b[0] > lo): lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi): hi = b[1]
            if lo is not None and hi is not None and hi < lo: hi = lo
        if lo is None: lo = Fraction(-3) if hi is None else hi - 6
        if hi is None: hi = lo + 6
        if b: return Fraction(r.uniform(0.001, 0.999)) * (hi - lo) + lo
        if r.random() < 0.05:
            return r.choice([lo, hi] if lo > 0 or hi < 0 else [lo, hi, Fraction(0)])
        w = float(hi - lo)
        if w > 1e3 and lo >= 0:
            v = math.exp(r.uniform(math.log(float(lo) + 1e-3), math.log(float(hi))))
        else: v = r.uniform(float(lo), float(hi))
        return min(max(Fraction(v), lo), hi)

    def sample(self, pc, c, n=200, pc_only=False, eq=None, tol=None):
        """find a valuation satisfying pc and violating c (or the equality eq beyond rounding)"""
        import mpmath
        pcs = allp = [p for p in pc if isinstance(p, T)]
        if eq is not None:
            # facts about other variables are independent of the equality
            goal = tm.req(eq[0], eq[1])
            if isinstance(goal, T): pcs = self.slice(pc, goal)
        bd = {}
        for p in pcs:
            q = self.simple(p)
            if q:
                v, low, kk, st = q
                b = bd.setdefault(v, [None, None]); kk = Fraction(kk)
                if low: b[0] = kk if b[0] is None else max(b[0], kk)
                else: b[1] = kk if b[1] is None else min(b[1], kk)
        roots = list(pcs)
        if eq is not None: roots += [eq[0], eq[1]]
        elif isinstance(c, T): roots.append(c)
        lv = leaves(roots)
        sub = eqsubst(pcs)
        order = None
        t0 = time.time()
        hits = 0
        seed = self.zseed(pcs) if len(pcs) > 2 * len(lv) + 2 or any(p.op in ('eq',) for p in pcs) else None
        for k in range(n):
            if time.time() - t0 > 15: break
            val = {}
            for x in lv:
                if x.op == 'sel' and isinstance(x.args[1], T): continue
                val[x] = self.randval(x, k, bd)
            if seed and k % 3 == 2:
                # perturb a solver model of the path condition
                for x in lv:
                    if x in seed and self.rng.random() < 0.6: val[x] = seed[x]
            if seed and k == 0: val.update(seed)
            extra = {}
            def vf(x):
                if isinstance(x, tuple):
                    v = extra.get(x)
                    if v is None:
                        v = val.get(tm.mk('sel', (x[1], x[2]), 'R'))
                        if v is None: v = Fraction(self.rng.uniform(-3, 3))
                        extra[x] = v
                    return v
                return val[x]
            try:
                for kk in range(3):
                    ch = False
                    for v, e in sub:
                        if v in val:
                            nv = evalf([e], vf)[e] if isinstance(e, T) else e
                            nv = int(nv) if v.op == 'iv' else Fraction(nv)
                            if val[v] != nv: val[v] = nv; ch = True
                    if not ch: break
                ev = evalf(roots, vf)
            except (Undefined, OverflowError):
                continue
            if not all(bool(ev[p]) for p in pcs):
                # equalities substituted above may miss by rounding
                if not all(bool(ev[p]) or p.op == 'eq' for p in pcs): continue
            hits += 1
            bad = False
            if eq is not None:
                a, b = ev[eq[0]], ev[eq[1]]
                thr = tol if tol is not None else 1e-6 * max(1e-30, abs(a), abs(b))
                if abs(a - b) > thr: bad = True
            elif pc_only: bad = True
            elif not ev[c]: bad = True
            if bad:
                # confirm with 60 digits
                try:
                    with mpmath.workdps(60):
                        ev = evalf(roots, vf, mpmath)
                        ok = all(bool(ev[p]) for p in pcs)
                        if eq is not None:
                            a, b = ev[eq[0]], ev[eq[1]]
                            thr = tol if tol is not None else max(1e-9 * max(abs(a), abs(b)), mpmath.mpf(10) ** -40)
                            bad = abs(a - b) > thr
                        elif not pc_only: bad = not ev[c]
                except (Undefined, AttributeError, TypeError):
                    continue
                if ok and bad:
                    if len(pcs) < len(allp):
                        inn = set(pcs)
                        rest = [p for p in allp if p not in inn]
                        if self.z3check(rest, 2000)[0] == z3.unsat: return None
                    m = dict(val); m.update(extra)
                    return m
        return None

    def zseed(self, pcs):
        r, s = self.z3check(pcs, 1000)
        if r == z3.sat: return self.model(s, pcs)
        return None

    def pinned(self, pc, t):
        """value of the integer term t when the path condition determines it"""
        key = ('pin', frozenset(p.id for p in pc if isinstance(p, T)), t.id)
        if key in self.cache: return self.cache[key]
        v = None
        sl = self.slice(pc, tm.mk('eq', (t, 0), 'B'))
        r, s = self.z3check(sl, 2000)
        if r == z3.sat:
            k = z3num(s.model().eval(self.z.conv(t), model_completion=True))
            if k is not None and k == int(k):
                k = int(k)
                ne = tm.bnot(tm.ieq(t, k))
                if not isinstance(ne, T): v = None if ne else k
                else:
                    r, s = self.z3check(sl + [ne], 2000)
                    if r == z3.unsat: v = k
        self.cache[key] = v
        return v

    def prove_eq(self, ob, budget, exact=False):
        pc = ob['pc']
        a, b = ob['data'][0], ob['data'][1]
        tol = ob['data'][2] if len(ob['data']) > 2 else None
        t0 = time.time()
        if not exact:
            m = self.sample(pc, None, n=12, eq=(a, b), tol=float(tol) if tol is not None else None)
            if m is not None: return ('refuted', 'sampling', m)
        sub = {}
        for v, e in eqsubst([p for p in pc if isinstance(p, T)]):
            sub[v] = e
        for x in topo([y for y in (a, b) if isinstance(y, T)]):
            if x.op == 'toreal' and isinstance(x.args[0], T) and x not in sub and x.args[0].op != 'iv':
                v = self.pinned(pc, x.args[0])
                if v is not None: sub[x] = tm.rconst(Fraction(v))
        r = self.casz(pc, a, b, sub, {}, tol, t0 + budget, 0, exact)
        self.stat['castime'] += time.time() - t0
        if r is True: return ('proved', 'cas', None)
        if r == 'approx': return ('proved', 'cas~', None)
        if exact: return ('unknown', 'cas', None)
        if tol is None:
            nc = tm.bnot(tm.req(a, b))
            if isinstance(nc, T):
                sl = self.slice(pc, nc)
                rr, s = self.z3check(sl + [nc], min(budget, 10) * 1000)
                if rr == z3.unsat: return ('proved', 'z3', None)
                m = self.sample(pc, None, n=200, eq=(a, b))
                if m is not None: return ('refuted', 'sampling', m)
                if self.cvc5(sl + [nc], min(budget, 10)) == 'unsat': return ('proved', 'cvc5', None)
        else:
            d = tm.rsub(a, b); tc = tm.rconst(Fraction(tol))
            for x in (tm.rlt(tc, d), tm.rlt(d, tm.rneg(tc))):
                if not isinstance(x, T):
                    if x: return ('unknown', 'cas+z3', None)
                    continue
                rr, s = self.z3check(self.slice(pc, x) + [x], min(budget, 10) * 1000)
                if rr != z3.unsat: return ('unknown', 'cas+z3', None)
            return ('proved', 'z3', None)
        return ('unknown', 'cas+z3', None)

    def casz(self, pc, a, b, sub, dec, tol, deadline, depth, exact=False, base=None):
        """is a-b identically zero under the decisions dec"""
        if time.time() > deadline: return None
        if base is None: base = pc
        N = poly.NF(subst=sub, positive=self.posatoms(pc))
        N.itedec = dec
        try:
            ra = N.nf(a); rb = N.nf(b)
            d = N.radd(ra, rb, -1)
            for _ in range(3):
                # radicands split over factors discovered later: renormalise
                if not d[0] or not N.sq: break
                n0 = len(N.facs)
                N.memo.clear()
                ra = N.nf(a); rb = N.nf(b)
                d = N.radd(ra, rb, -1)
                if len(N.facs) == n0: break
        except poly.NeedIte as e:
            if depth > 14: return None
            res = True
            opts = []
            for v in (True, False):
                cc = e.c if v else tm.bnot(e.c)
                if cc is False: continue
                if isinstance(cc, T) and base is not None and not self.feasible(base, cc): continue
                opts.append((v, cc))
            if len(opts) == 2 and base is not None and len(pc) > len(base):
                opts = [(v, cc) for v, cc in opts if not isinstance(cc, T) or self.feasible(pc, cc)]
            if len(opts) == 1:
                # decided by the path condition already: nothing to add to it
                d2 = dict(dec); d2[e.c] = opts[0][0]
                return self.casz(pc, a, b, sub, d2, tol, deadline, depth, exact, base)
            for v, cc in opts:
                d2 = dict(dec); d2[e.c] = v
                npc = pc + ([cc] if isinstance(cc, T) else [])
                s2 = dict(sub)
                for vv, ee in eqsubst([cc] if isinstance(cc, T) else []): s2.setdefault(vv, ee)
                r = self.casz(npc, a, b, s2, d2, tol, deadline, depth + 1, exact, base)
                if r is None or r is False: return r
                if r == 'approx': res = 'approx'
            return res
        except (poly.TooBig, ZeroDivisionError, Unsupported, RecursionError):
            return None
        if not d[0]: return True
        if exact: return None
        if tol is not None:
            if d[1]: return None
            if all(abs(c) <= tol for c in d[0].values()): return 'approx'
            return None
        # rounding of literal constants
        if not d[1] or True:
            big = max([abs(c) for c in ra[0].values()] + [abs(c) for c in rb[0].values()] + [0])
            if d[1] == ra[1] == rb[1] or not d[1]:
                if big and all(abs(c) <= big * Fraction(1, 10**11) for c in d[0].values()): return 'approx'
            else:
                # compare on the common denominator
                na = ra[0]; nb = rb[0]
                try:
                    for f, e in d[1].items():
                        for _ in range(e - ra[1].get(f, 0)): na = N.pmul(na, N.facs[f])
                    big = max([abs(c) for c in na.values()] + [0])
                    if big and all(abs(c) <= big * Fraction(1, 10**11) for c in d[0].values()): return 'approx'
                except poly.TooBig: return None
        return False

    def posatoms(self, pc):
        s = set()
        for p in pc:
            if not isinstance(p, T): continue
            if p.op == 'lt' and isinstance(p.args[0], T) and p.args[0].op == 'rc' and p.args[0].args[0] >= 0: s.add(p.args[1])
            if p.op == 'le' and isinstance(p.args[0], T) and p.args[0].op == 'rc' and p.args[0].args[0] > 0: s.add(p.args[1])
        return s

    def cvc5(self, cons, budget):
        t0 = time.time()
        try:
            s = z3.Solver()
            for c in cons: s.add(self.z.conv(c))
            for a in self.z.axs(cons): s.add(a)
            txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt); fn = f.name
            try:
                o = subprocess.run(['cvc5', '--tlimit=%d' % int(budget * 1000), '--nl-ext-tplanes', fn], capture_output=True, text=True, timeout=budget + 5).stdout
            finally:
                os.unlink(fn)
            r = o.strip().split('\n')[0] if o.strip() else 'unknown'
        except Exception:
            r = 'unknown'
        self.stat['cvc5time'] += time.time() - t0
        return r

def z3num(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    raise ValueError('num')

def eqsubst(pcs):
    """list of (variable atom, term) from equalities in the path condition"""
    out = []
    used = set()
    for p in pcs:
        if p.op != 'eq': continue
        a, b = p.args
        if isinstance(b, int):
            # integer polynomial == 0
            d = tm.idict(a)
            for m, c in d.items():
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    v = m[0][0]
                    if v in used or v.op not in ('iv',): continue
                    if any(v in deps(x) for mm, cc in d.items() if mm != m for x, e in mm): continue
                    rest = {mm: -cc * c for mm, cc in d.items() if mm != m}
                    e = tm.ipoly(rest)
                    if isinstance(e, T) and (deps(e) & used): continue
                    out.append((v, e)); used.add(v)
                    break
        else:
            lin = linsolve(a, b)
            if lin is not None:
                v, e = lin
                if v not in used and not (deps(e) & used) and v not in deps(e):
                    out.append((v, e)); used.add(v)
    return out

def linsolve(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op in ('rv', 'sel') and x not in deps(y): return x, y
    c, parts = tm._linparts(tm.rsub(a, b))
    for i, (k, t) in enumerate(parts):
        if t.op in ('rv', 'sel') and not any(t in deps(u) for j, (kk, u) in enumerate(parts) if j != i):
            e = tm.rconst(c)
            for j, (kk, u) in enumerate(parts):
                if j != i: e = tm.radd(e, tm.rmul(kk, u))
            return t, tm.rmul(Fraction(-1) / k, e)
    return None
