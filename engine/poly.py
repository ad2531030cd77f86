"""Exact normal form for rational functions over the atoms of a term DAG.

A rational function is (num, den): num is {monomial: coef}, monomial a sorted
tuple of (atom index, exponent), den is {factor index: exponent}.  Square
roots are reduced with s*s -> radicand, sin^2 -> 1 - cos^2, tan -> sin/cos,
real powers are collected by base.
"""
from fractions import Fraction
import term as tm
from term import T, Unsupported

class TooBig(Exception):
    pass

def nrm(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c

class NF(object):
    def __init__(self, subst=None, positive=None, maxterms=60000):
        self.atoms = []          # index -> (kind, data)
        self.aidx = {}
        self.facs = []           # index -> poly
        self.fidx = {}
        self.sq = {}             # sqrt atom -> radicand rf
        self.sin = {}            # sin atom -> cos atom
        self.pw = {}             # pow atom -> (base key, base rf, exponent rf)
        self.logs = {}           # log atom -> (base key, base rf)
        self.memo = {}
        self.subst = subst or {}
        self.positive = positive or set()
        self.maxterms = maxterms
        self.special = False
        self.itedec = {}

    # ---------------- atoms
    def atom(self, key):
        i = self.aidx.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.aidx[key] = i
        return i

    # ---------------- polynomials
    @staticmethod
    def padd(a, b, k=1):
        if len(a) < len(b) and k == 1: a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + (c if k == 1 else k * c)
            if v == 0: r.pop(m, None)
            else: r[m] = nrm(v)
        return r

    def pmul(self, a, b):
        if not a or not b: return {}
        if len(a) > len(b): a, b = b, a
        r = {}
        mm = mmul
        if len(a) * len(b) > 40 * self.maxterms: raise TooBig()
        for m1, c1 in a.items():
            if m1 == ():
                for m2, c2 in b.items():
                    v = r.get(m2, 0) + c1 * c2
                    r[m2] = v
                continue
            for m2, c2 in b.items():
                m = mm(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        r = {m: nrm(c) for m, c in r.items() if c != 0}
        if len(r) > self.maxterms: raise TooBig()
        return r

    def pscale(self, a, k):
        if k == 1: return a
        return {m: nrm(c * k) for m, c in a.items()}

    # reduce special atoms in a polynomial; returns rf
    def reduce(self, p):
        if not self.special: return (p, {})
        need = False
        sq = self.sq; sn = self.sin; pw = self.pw
        for m in p:
            npw = ()
            for a, e in m:
                if a in sq and (e >= 2 or e < 0): need = True; break
                if a in sn and e >= 2: need = True; break
                if a in pw:
                    bk = pw[a][0]
                    if e != 1 or bk in npw: need = True; break
                    npw += (bk,)
                    if bk[0] == 'a' and any(x == bk[1] for x, _ in m): need = True; break
            if need: break
        if not need:
            return (p, {})
        res = ({}, {})
        rest = {}
        groups = {}
        for m, c in p.items():
            fac = None
            keep = []
            pl = []
            for a, e in m:
                if a in sq and (e >= 2 or e < 0):
                    q, r = divmod(e, 2)
                    if r: keep.append((a, 1))
                    f = self.rpow(sq[a], q)
                    fac = f if fac is None else self.rmul(fac, f)
                elif a in sn and e >= 2:
                    q, r = divmod(e, 2)
                    if r: keep.append((a, 1))
                    cpoly = {(): 1, ((sn[a], 2),): -1}
                    f = self.rpow((cpoly, {}), q)
                    fac = f if fac is None else self.rmul(fac, f)
                elif a in pw:
                    pl.append((a, e))
                else:
                    keep.append((a, e))
            if pl:
                bases = set(pw[a][0][1] for a, e in pl if pw[a][0][0] == 'a')
                plain = [(a, e) for a, e in keep if a in bases]
                if all(e == 1 for a, e in pl) and len(set(pw[a][0] for a, e in pl)) == len(pl) and not plain:
                    keep.extend(pl)
                else:
                    keep = [(a, e) for a, e in keep if a not in bases]
                    f = self.powcombine(pl, plain)
                    fac = f if fac is None else self.rmul(fac, f)
            keep.sort()
            if fac is None:
                rest[tuple(keep)] = rest.get(tuple(keep), 0) + c
            else:
                t = self.rmul(({tuple(keep): c}, {}), fac)
                key = tuple(sorted(t[1].items()))
                g = groups.get(key)
                groups[key] = t[0] if g is None else self.padd(g, t[0])
        res = ({m: nrm(c) for m, c in rest.items() if c != 0}, {})
        for key, num in groups.items():
            res = self.radd(res, (num, dict(key)))
        return res

    def powcombine(self, pl, plain=()):
        by = {}
        for a, e in plain:
            by[('a', a)] = (({((a, 1),): 1}, {}), ({(): e}, {}))
        for a, e in pl:
            bk, base, ex = self.pw[a]
            t = self.rmul(ex, ({(): e}, {}))
            if bk in by: by[bk] = (base, self.radd(by[bk][1], t))
            else: by[bk] = (base, t)
        out = ({(): 1}, {})
        for bk, (base, ex) in by.items():
            out = self.rmul(out, self.mkpow(bk, base, ex))
        return out

    def mkpow(self, bk, base, ex):
        num, den = ex
        if not num: return ({(): 1}, {})
        if not den and len(num) == 1 and () in num and isinstance(num[()], int):
            return self.rpow(base, num[()])
        k = ('pow', bk, self.key(ex))
        a = self.atom(k)
        self.special = True
        self.pw[a] = (bk, base, ex)
        return ({((a, 1),): 1}, {})

    # ---------------- rational functions
    def key(self, r):
        r = self.cancel(r)
        return (frozenset(r[0].items()), frozenset(r[1].items()))

    def radd(self, a, b, k=1):
        if not a[0]: return b if k == 1 else (self.pscale(b[0], k), b[1])
        if not b[0]: return a
        if a[1] == b[1]:
            n = self.padd(a[0], b[0], k)
            return (n, a[1] if n else {})
        den = dict(a[1])
        for f, e in b[1].items():
            if den.get(f, 0) < e: den[f] = e
        na = a[0]; nb = b[0]
        for f, e in den.items():
            for _ in range(e - a[1].get(f, 0)): na = self.pmul(na, self.facs[f])
            for _ in range(e - b[1].get(f, 0)): nb = self.pmul(nb, self.facs[f])
        n = self.padd(na, nb, k)
        if not n: return ({}, {})
        r = self.reduce(n)
        return self.cancel((r[0], mergeden(r[1], den)))

    def rmul(self, a, b):
        if not a[0] or not b[0]: return ({}, {})
        n = self.pmul(a[0], b[0])
        r = self.reduce(n)
        den = mergeden(mergeden(a[1], b[1]), r[1])
        return self.cancel((r[0], den))

    def rpow(self, a, n):
        if n < 0: return self.rpow(self.rinv(a), -n)
        r = ({(): 1}, {})
        for _ in range(n): r = self.rmul(r, a)
        return r

    def cancel(self, r):
        num, den = r
        if not den or not num: return (num, den if num else {})
        out = dict(den)
        for f in list(out):
            F = self.facs[f]
            while out.get(f, 0) > 0 and len(num) >= len(F) or (out.get(f, 0) > 0 and len(num) == len(F)):
                q = pdiv(num, F) if len(num) <= 400 and len(F) <= 40 else None
                if q is None: break
                num = q
                out[f] -= 1
                if out[f] == 0: del out[f]; break
        return (num, out)

    def factor(self, p):
        """register polynomial p (content removed) as a factor: returns (scale, mono, idx or None)"""
        # monomial content
        ms = iter(p)
        m0 = dict(next(ms))
        for m in ms:
            dm = dict(m)
            for a in list(m0):
                e = dm.get(a, 0)
                if e == 0 or (e > 0) != (m0[a] > 0):
                    if m0[a] > 0 and e < 0: m0[a] = e
                    elif m0[a] < 0 and e >= 0: pass
                    else: del m0[a]
                else:
                    m0[a] = min(m0[a], e)
            for a, e in dm.items():
                if e < 0 and a not in m0: m0[a] = e
        cont = tuple(sorted((a, e) for a, e in m0.items() if e and a not in self.sq and a not in self.pw))
        if cont:
            inv = tuple((a, -e) for a, e in cont)
            p = {mmul(m, inv): c for m, c in p.items()}
        lead = max(p, key=mkey)
        lc = p[lead]
        if lc != 1:
            p = {m: nrm(Fraction(c) / lc) for m, c in p.items()}
        if len(p) == 1:
            return lc, mmul(cont, lead), None
        k = frozenset(p.items())
        i = self.fidx.get(k)
        if i is None:
            i = len(self.facs); self.facs.append(p); self.fidx[k] = i
        return lc, cont, i

    def rinv(self, a):
        num, den = self.cancel(a)
        if not num: raise ZeroDivisionError()
        if len(num) == 1:
            (m, c), = num.items()
            r = self.reduce({tuple((x, -e) for x, e in m): nrm(Fraction(1) / c)})
        else:
            lc, cont, f = self.factor(num)
            if f is None:
                r = self.reduce({tuple((x, -e) for x, e in cont): nrm(Fraction(1) / lc)})
            else:
                r = self.reduce({tuple((x, -e) for x, e in cont): nrm(Fraction(1) / lc)})
                r = (r[0], mergeden(r[1], {f: 1}))
        for f, e in den.items():
            for _ in range(e): r = self.rmul(r, (self.facs[f], {}))
        return r

    # ---------------- positivity (syntactic)
    def pos(self, p):
        """is polynomial p certainly > 0 (all coefficients positive, all monomials even or positive atoms)"""
        if not p: return False
        strict = False
        for m, c in p.items():
            if c <= 0: return False
            ok = True; st = True
            for a, e in m:
                if a in self.positive_atoms(): continue
                if a in self.sq: continue
                st = False
                if e % 2: ok = False
            if not ok: return False
            if st: strict = True
        return strict

    def positive_atoms(self):
        if getattr(self, '_pa_n', None) != len(self.atoms):
            self._pa_n = len(self.atoms)
            s = set()
            for i, k in enumerate(self.atoms):
                if isinstance(k, T):
                    lo, hi = tm.rinterval(k) if k.sort == 'R' else tm.interval(k)
                    if (lo is not None and lo > 0) or k in self.positive: s.add(i)
                elif k[0] == 'pow' or (k[0] == 'uf' and k[1] == 'exp'): s.add(i)
            self._pa = s
        return self._pa

    # ---------------- terms
    def mksqrt(self, r):
        r = self.cancel(r)
        num, den = r
        if not num: return ({}, {})
        outer = ({(): 1}, {})
        # denominators: sqrt(N/F^e)
        rden = {}
        for f, e in den.items():
            if self.nonneg(self.facs[f]):
                q = (e + 1) // 2
                if e % 2: outer = self.rmul(outer, self.sqrtfac(self.facs[f]))
                outer = self.rmul(outer, ({(): 1}, {f: q}))
            else:
                rden[f] = e
        rr = self.reduce(num)
        if rr[1]:
            r = self.radd(rr, ({}, {})); num = r[0]; rden = mergeden(rden, r[1])
        else:
            num = rr[0]
        if not rden:
            # scale
            lc, cont, f = self.factor(num)
            P = self.facs[f] if f is not None else {(): 1}
            # monomial content: pull squares of positive atoms
            keep = []
            for a, e in cont:
                if a in self.positive_atoms() and e % 2 == 0:
                    outer = self.rmul(outer, ({((a, e // 2),): 1}, {}))
                elif a in self.positive_atoms() and e < 0:
                    q = (-e + 1) // 2
                    outer = self.rmul(outer, ({((a, -q),): 1}, {}))
                    if e + 2 * q: keep.append((a, e + 2 * q))
                else: keep.append((a, e))
            if keep: P = self.pmul(P, {tuple(sorted(keep)): 1})
            c = Fraction(lc)
            if c < 0:
                P = self.pscale(P, -1); c = -c
            import math
            n = math.isqrt(c.numerator); d = math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                outer = self.rmul(outer, ({(): nrm(Fraction(n, d))}, {}))
            else:
                a = self.atom(('sqrtc', c)); self.sq[a] = ({(): nrm(c)}, {}); self.special = True
                outer = self.rmul(outer, ({((a, 1),): 1}, {}))
            if P == {(): 1}: return outer
            return self.rmul(outer, self.sqrtfac(P))
        rad = (num, rden)
        a = self.atom(('sqrt', self.key(rad)))
        self.sq[a] = rad
        self.special = True
        return self.rmul(outer, ({((a, 1),): 1}, {}))

    def sqrtfac(self, P):
        """square root of a content-free polynomial: product over its known nonnegative factors"""
        out = ({(): 1}, {})
        if P == {(): 1}: return out
        q = psqrt(P)
        if q is not None:
            if self.nonneg(q): return (q, {})
            if self.nonneg(self.pscale(q, -1)): return (self.pscale(q, -1), {})
        if self.nonneg(P) and 1 < len(P) <= 300:
            for F in sorted(self.facs, key=len):
                if len(F) > len(P) or len(F) < 2 or len(F) > 40: continue
                if frozenset(F.items()) == frozenset(P.items()): continue
                if not self.nonneg(F): continue
                q = pdiv(P, F)
                if q is None or not self.nonneg(q): continue
                r = self.mksqrt((q, {}))
                return self.rmul(r, self.mksqrt((F, {})))
        rad = (P, {})
        k = ('sqrt', self.key(rad))
        if len(P) > 1: self.factor(P)
        a = self.atom(k)
        self.sq[a] = rad
        self.special = True
        return ({((a, 1),): 1}, {})

    def nonneg(self, p):
        """certainly >= 0: nonnegative coefficients on even (or positive-atom) monomials"""
        pa = self.positive_atoms()
        for m, c in p.items():
            if c < 0: return False
            for a, e in m:
                if e % 2 and a not in pa and a not in self.sq: return False
        return True

    def nf(self, t):
        memo = self.memo
        r = memo.get(t)
        if r is not None: return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop(); continue
            if x in self.subst:
                s = self.subst[x]
                if s not in memo: stack.append(s); continue
                memo[x] = memo[s]; stack.pop(); continue
            op = x.op
            if op in ('add', 'mul', 'div', 'neg'):
                todo = [a for a in x.args if a not in memo]
                if todo: stack.extend(todo); continue
                if op == 'add': v = self.radd(memo[x.args[0]], memo[x.args[1]])
                elif op == 'mul': v = self.rmul(memo[x.args[0]], memo[x.args[1]])
                elif op == 'neg': v = (self.pscale(memo[x.args[0]][0], -1), memo[x.args[0]][1])
                else:
                    d = memo[x.args[1]]
                    if not d[0]: raise ZeroDivisionError()
                    v = self.rmul(memo[x.args[0]], self.rinv(d))
            elif op == 'rc':
                c = nrm(x.args[0])
                v = ({(): c} if c else {}, {})
            elif op == 'uf':
                todo = [a for a in x.args[1:] if a not in memo]
                if todo: stack.extend(todo); continue
                v = self.nfuf(x, [memo[a] for a in x.args[1:]])
            elif op == 'toreal':
                v = self.nfint(x.args[0])
            elif op == 'ite':
                dec = self.itedec.get(x.args[0])
                if dec is None: raise NeedIte(x.args[0])
                y = x.args[1] if dec else x.args[2]
                if y not in memo: stack.append(y); continue
                v = memo[y]
            else:
                v = ({((self.atom(x), 1),): 1}, {})
            memo[x] = v
            stack.pop()
        return memo[t]

    def nfint(self, p):
        if not isinstance(p, T): return ({(): p} if p else {}, {})
        r = ({}, {})
        for m, c in tm.idict(p).items():
            term = ({(): c}, {})
            for a, e in m:
                if a in self.subst:
                    f = self.nfint(self.subst[a])
                elif a.op == 'ite':
                    dec = self.itedec.get(a.args[0])
                    if dec is None: raise NeedIte(a.args[0])
                    f = self.nfint(a.args[1] if dec else a.args[2])
                else:
                    f = ({((self.atom(a), 1),): 1}, {})
                term = self.rmul(term, self.rpow(f, e))
            r = self.radd(r, term)
        return r

    def nfuf(self, x, args):
        name = x.args[0]
        if name == 'sqrt':
            return self.mksqrt(args[0])
        if name in ('sin', 'cos'):
            a, sgn = self.canon_sign(args[0])
            k = self.key(a)
            s = self.atom(('uf', 'sin', k)); c = self.atom(('uf', 'cos', k))
            if s not in self.sin: self.sin[s] = c
            self.special = True
            if name == 'sin': return ({((s, 1),): sgn}, {})
            return ({((c, 1),): 1}, {})
        if name == 'tan':
            a, sgn = self.canon_sign(args[0])
            k = self.key(a)
            s = self.atom(('uf', 'sin', k)); c = self.atom(('uf', 'cos', k))
            self.sin[s] = c
            self.special = True
            return ({tuple(sorted([(s, 1), (c, -1)])): sgn}, {})
        if name == 'pow':
            return self.nfpow(args[0], args[1])
        if name == 'log': return self.nflog(args[0])
        if name == 'exp': return self.nfexp(args[0])
        return ({((self.atom(('uf', name) + tuple(self.key(a) for a in args)), 1),): 1}, {})

    def nfpow(self, b, e):
        b = self.cancel(b)
        if not b[0]: return ({}, {})
        # split base into monomial parts and factors; positivity of each part is assumed by pow's domain
        out = ({(): 1}, {})
        if len(b[0]) == 1:
            (m, c), = b[0].items()
            rest = None
        else:
            lc, m, f = self.factor(b[0])
            c = lc
            rest = f
        def one(bk, base, ee):
            return self.mkpow(bk, base, ee)
        if c != 1:
            if c < 0: raise Unsupported('pow of negative constant')
            out = self.rmul(out, one(('c', Fraction(c)), ({(): c}, {}), e))
        for a, k in m:
            if a in self.pw:
                bk, base, ex = self.pw[a]
                out = self.rmul(out, one(bk, base, self.rmul(self.rmul(ex, e), ({(): k}, {}))))
            else:
                out = self.rmul(out, one(('a', a), ({((a, 1),): 1}, {}), self.rmul(e, ({(): k}, {}))))
        if rest is not None:
            out = self.rmul(out, one(('f', rest), (self.facs[rest], {}), e))
        for f, k in b[1].items():
            out = self.rmul(out, one(('f', f), (self.facs[f], {}), self.rmul(e, ({(): -k}, {}))))
        return out

    def mklog(self, bk, base):
        a = self.atom(('log', bk))
        self.logs[a] = (bk, base)
        return ({((a, 1),): 1}, {})

    def nflog(self, r):
        r = self.cancel(r)
        num, den = r
        if not num: raise Unsupported('log 0')
        out = ({}, {})
        if len(num) == 1:
            (m, c), = num.items(); rest = None
        else:
            c, m, rest = self.factor(num)
        if c != 1:
            if c < 0: return ({((self.atom(('uf', 'log', self.key(r))), 1),): 1}, {})
            out = self.radd(out, self.mklog(('c', Fraction(c)), ({(): c}, {})))
        for a, k in m:
            if a in self.pw:
                bk, base, ex = self.pw[a]
                l = self.rmul(ex, self.mklog(bk, base)) if bk != ('e',) else ex
            else:
                l = self.mklog(('a', a), ({((a, 1),): 1}, {}))
            out = self.radd(out, self.rmul(({(): k}, {}), l))
        if rest is not None: out = self.radd(out, self.mklog(('f', rest), (self.facs[rest], {})))
        for f, k in den.items():
            out = self.radd(out, self.rmul(({(): -k}, {}), self.mklog(('f', f), (self.facs[f], {}))))
        return out

    def nfexp(self, r):
        num, den = self.cancel(r)
        if not num: return ({(): 1}, {})
        by = {}; rest = {}
        for m, c in num.items():
            ls = [(a, e) for a, e in m if a in self.logs]
            if len(ls) == 1 and ls[0][1] == 1:
                a = ls[0][0]
                by.setdefault(a, {})[tuple(x for x in m if x[0] != a)] = c
            else: rest[m] = c
        out = ({(): 1}, {})
        for a, p in by.items():
            bk, base = self.logs[a]
            out = self.rmul(out, self.mkpow(bk, base, self.cancel((p, den))))
        if rest:
            e = self.atom(('euler',))
            out = self.rmul(out, self.mkpow(('e',), ({((e, 1),): 1}, {}), self.cancel((rest, den))))
        return out

    def canon_sign(self, a):
        if not a[0]: return a, 1
        lead = max(a[0], key=mkey)
        if a[0][lead] < 0:
            return (self.pscale(a[0], -1), a[1]), -1
        return a, 1

class NeedIte(Exception):
    def __init__(self, c): self.c = c

def mkey(m):
    return (sum(abs(e) for a, e in m), m)

def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    r = []
    i = j = 0; n1 = len(m1); n2 = len(m2)
    while i < n1 and j < n2:
        a = m1[i]; b = m2[j]
        if a[0] < b[0]: r.append(a); i += 1
        elif a[0] > b[0]: r.append(b); j += 1
        else:
            e = a[1] + b[1]
            if e: r.append((a[0], e))
            i += 1; j += 1
    if i < n1: r.extend(m1[i:])
    if j < n2: r.extend(m2[j:])
    return tuple(r)

def mergeden(a, b):
    if not b: return a
    if not a: return b
    r = dict(a)
    for f, e in b.items():
        v = r.get(f, 0) + e
        if v: r[f] = v
        else: r.pop(f, None)
    return r

def lexkey(m, atoms):
    d = dict(m)
    return tuple(d.get(a, 0) for a in atoms)

def pdiv(p, q):
    """exact division of polynomials (no negative exponents), None if not exact"""
    atoms = sorted({a for m in p for a, e in m} | {a for m in q for a, e in m})
    for m in q:
        for a, e in m:
            if e < 0: return None
    shift = {}
    for m in p:
        for a, e in m:
            if e < 0: shift[a] = min(shift.get(a, 0), e)
    if shift:
        sm = tuple(sorted((a, -e) for a, e in shift.items()))
        p = {mmul(m, sm): c for m, c in p.items()}
    P = {lexkey(m, atoms): c for m, c in p.items()}
    Q = {lexkey(m, atoms): c for m, c in q.items()}
    lq = max(Q); cq = Q[lq]
    quo = {}
    steps = 0
    while P:
        lp = max(P)
        d = tuple(x - y for x, y in zip(lp, lq))
        if any(x < 0 for x in d): return None
        steps += 1
        if steps > 2000: return None
        k = Fraction(P[lp]) / cq
        k = nrm(k)
        quo[d] = k
        for m, c in Q.items():
            mm = tuple(x + y for x, y in zip(m, d))
            v = P.get(mm, 0) - k * c
            if v == 0: P.pop(mm, None)
            else: P[mm] = v
    out = {}
    for d, c in quo.items():
        m = tuple((a, e) for a, e in zip(atoms, d) if e)
        out[m] = nrm(c)
    if shift:
        im = tuple(sorted((a, e) for a, e in shift.items()))
        out = {mmul(m, im): c for m, c in out.items()}
    return out

def psqrt(p):
    """polynomial square root or None"""
    import math
    if len(p) < 2 or len(p) > 60: return None
    atoms = sorted({a for m in p for a, e in m})
    if any(e < 0 for m in p for a, e in m): return None
    P = {lexkey(m, atoms): Fraction(c) for m, c in p.items()}
    lp = max(P)
    if any(x % 2 for x in lp): return None
    c = P[lp]
    if c <= 0: return None
    n = math.isqrt(c.numerator); d = math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator: return None
    lead = tuple(x // 2 for x in lp); lc = Fraction(n, d)
    root = {lead: lc}
    rem = dict(P); del rem[lp]
    steps = 0
    while rem:
        steps += 1
        if steps > 30: return None
        lr = max(rem)
        m = tuple(x - y for x, y in zip(lr, lead))
        if any(x < 0 for x in m) or m in root or m > lead: return None
        k = rem[lr] / (2 * lc)
        # (root + k m)^2 - root^2 = 2 k m root + k^2 m^2
        for r, rc in root.items():
            mm = tuple(x + y for x, y in zip(r, m))
            v = rem.get(mm, 0) - 2 * k * rc
            if v == 0: rem.pop(mm, None)
            else: rem[mm] = v
        mm = tuple(2 * x for x in m)
        v = rem.get(mm, 0) - k * k
        if v == 0: rem.pop(mm, None)
        else: rem[mm] = v
        root[m] = k
    out = {}
    for d_, c_ in root.items():
        out[tuple((a, e) for a, e in zip(atoms, d_) if e)] = nrm(c_)
    return out
