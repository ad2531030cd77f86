"""Hash-consed terms over Real / Int / Bool used by the symbolic executor.

Reals (IEEE double treated as mathematical reals once symbolic) are a binary
DAG; integers are kept as canonical polynomials over integer atoms so that
addresses compare syntactically.
"""
from fractions import Fraction
import math

class Unsupported(Exception):
    pass

_tab = {}
_cnt = [0]

class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'iv')
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o
    def __ne__(self, o):
        return self is not o
    def __bool__(self):
        raise TypeError("symbolic term used as python bool: %s" % show(self)[:200])

def mk(op, args, sort):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.args = args; t.sort = sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t.iv = None
        _tab[k] = t
    return t

_depth = [0]
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return '...'
    if t.op in ('rv', 'iv', 'bv'):
        return str(t.args[0])
    if t.op == 'rc':
        f = t.args[0]
        return str(f) if f.denominator < 10**6 else repr(float(f))
    if t.op == 'ip':
        out = []
        for m, c in t.args:
            s = '*'.join((show(a, d+1) if e == 1 else '%s^%d' % (show(a, d+1), e)) for a, e in m)
            if not m: out.append(str(c))
            elif c == 1: out.append(s)
            else: out.append('%d*%s' % (c, s))
        return '(' + '+'.join(out) + ')' if len(out) != 1 else out[0] if out else '0'
    return '(%s %s)' % (t.op, ' '.join(show(a, d+1) for a in t.args))

# ---------------------------------------------------------------- reals
def rconst(v):
    if isinstance(v, T):
        return v
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported('non-finite constant mixed with symbolic real')
    return mk('rc', (Fraction(v),), 'R')

def rvar(name):
    return mk('rv', (name,), 'R')

def isc(t):
    return t.op == 'rc'

def radd(a, b):
    a = rconst(a); b = rconst(b)
    if a.op == 'rc':
        if b.op == 'rc':
            return rconst(a.args[0] + b.args[0])
        if a.args[0] == 0: return b
    elif b.op == 'rc' and b.args[0] == 0:
        return a
    if a.op == 'neg' and a.args[0] is b or b.op == 'neg' and b.args[0] is a:
        return rconst(0)
    if a.id > b.id: a, b = b, a
    return mk('add', (a, b), 'R')

def rneg(a):
    a = rconst(a)
    if a.op == 'rc': return rconst(-a.args[0])
    if a.op == 'neg': return a.args[0]
    return mk('neg', (a,), 'R')

def rsub(a, b):
    return radd(a, rneg(b))

def rmul(a, b):
    a = rconst(a); b = rconst(b)
    if a.op != 'rc' and b.op == 'rc': a, b = b, a
    if a.op == 'rc':
        if b.op == 'rc': return rconst(a.args[0] * b.args[0])
        if a.args[0] == 0: return a
        if a.args[0] == 1: return b
        if a.args[0] == -1: return rneg(b)
    elif a.id > b.id: a, b = b, a
    return mk('mul', (a, b), 'R')

def rdiv(a, b):
    a = rconst(a); b = rconst(b)
    if b.op == 'rc':
        if b.args[0] == 0:
            raise Unsupported('symbolic division by constant zero')
        return rmul(rconst(1 / b.args[0]), a)
    if a.op == 'rc' and a.args[0] == 0:
        return a
    if a is b:
        return rconst(1)
    return mk('div', (a, b), 'R')

PI = mk('uf', ('pi',), 'R')

def uf(name, *args):
    """uninterpreted / transcendental real function with a few exact rewrites"""
    args = tuple(rconst(x) if not (isinstance(x, T)) else x for x in args)
    a = args[0] if args else None
    if name == 'fabs':
        if a.op == 'rc': return rconst(abs(a.args[0]))
        return ite(rlt(a, rconst(0)), rneg(a), a)
    if name == 'sqrt':
        if a.op == 'rc' and a.args[0] >= 0:
            f = a.args[0]
            n = math.isqrt(f.numerator); d = math.isqrt(f.denominator)
            if n*n == f.numerator and d*d == f.denominator:
                return rconst(Fraction(n, d))
        if a.op == 'mul' and a.args[0] is a.args[1]: return uf('fabs', a.args[0])
    if name == 'tan' and a.op == 'uf' and a.args[0] == 'atan':
        return a.args[1]
    if name == 'cos' and a.op == 'uf' and a.args[0] == 'atan':
        u = a.args[1]
        return rdiv(1, uf('sqrt', radd(1, rmul(u, u))))
    if name == 'sin' and a.op == 'uf' and a.args[0] == 'atan':
        u = a.args[1]
        return rdiv(u, uf('sqrt', radd(1, rmul(u, u))))
    if name in ('sin', 'cos') and a.op == 'uf' and a.args[0] in ('atan2', 'acos', 'asin'):
        k = a.args[0]; u = a.args[1]
        if k == 'atan2':
            v = a.args[2]
            r = uf('sqrt', radd(rmul(u, u), rmul(v, v)))
            if r.op != 'rc' or r.args[0] != 0: return rdiv(v if name == 'cos' else u, r)
        elif (k == 'acos') == (name == 'cos'): return u
        else: return uf('sqrt', radd(1, rneg(rmul(u, u))))
    if name in ('cos',) and a.op == 'neg':
        return uf('cos', a.args[0])
    if name in ('sin', 'tan', 'atan') and a.op == 'neg':
        return rneg(uf(name, a.args[0]))
    if name in ('sin', 'cos', 'tan'):
        # argument shifts by multiples of pi/2 (either PI-atom or the double M_PI)
        r = _shift(name, a)
        if r is not None: return r
    if name == 'exp' and a.op == 'uf' and a.args[0] == 'log':
        return a.args[1]
    if name == 'log' and a.op == 'uf' and a.args[0] == 'exp':
        return a.args[1]
    return mk('uf', (name,) + args, 'R')

_MPI = Fraction(math.pi)

def _linparts(a):
    """flatten a sum: list of (coef, term) plus constant"""
    c = Fraction(0); parts = []
    st = [(Fraction(1), a)]
    while st:
        k, t = st.pop()
        if t.op == 'add':
            st.append((k, t.args[0])); st.append((k, t.args[1]))
        elif t.op == 'neg':
            st.append((-k, t.args[0]))
        elif t.op == 'rc':
            c += k * t.args[0]
        elif t.op == 'mul' and t.args[0].op == 'rc':
            st.append((k * t.args[0].args[0], t.args[1]))
        else:
            parts.append((k, t))
    return c, parts

def _shift(name, a):
    c, parts = _linparts(a)
    if c == 0 or not parts:
        return None
    q = c / (_MPI / 2)
    n = round(q)
    if n == 0 or abs(q - n) > Fraction(1, 10**12):
        return None
    # sin/cos(x + n*pi/2): constant identified with n*pi/2 (M_PI idealised as pi)
    x = None
    for k, t in parts:
        tt = rmul(k, t)
        x = tt if x is None else radd(x, tt)
    n %= 4
    if name == 'sin':
        return [None, uf('cos', x), rneg(uf('sin', x)), rneg(uf('cos', x))][n] if n else uf('sin', x)
    if name == 'cos':
        return [None, rneg(uf('sin', x)), rneg(uf('cos', x)), uf('sin', x)][n] if n else uf('cos', x)
    if n % 2 == 0:
        return uf('tan', x)
    return rneg(rdiv(1, uf('tan', x)))

# ---------------------------------------------------------------- ints
# canonical polynomial: args = tuple of (mono, coef), mono = tuple of (atom, exp) sorted by atom id
def ipoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return 0
    if len(items) == 1 and items[0][0] == ():
        return items[0][1]
    items.sort(key=lambda mc: (len(mc[0]), tuple((a.id, e) for a, e in mc[0])))
    return mk('ip', tuple(items), 'I')

def idict(a):
    if isinstance(a, T):
        if a.op == 'ip':
            return dict(a.args)
        return {((a, 1),): 1}
    return {(): a} if a else {}

def ivar(name, lo=None, hi=None):
    t = mk('iv', (name,), 'I')
    if lo is not None or hi is not None:
        t.iv = (lo, hi)
    return iatom(t)

def iatom(t):
    return mk('ip', ((((t, 1),), 1),), 'I')

def iadd(a, b):
    if not isinstance(a, T) and not isinstance(b, T): return a + b
    d = dict(idict(a))
    for m, c in idict(b).items():
        d[m] = d.get(m, 0) + c
    return ipoly(d)

def imulc(a, k):
    if not isinstance(a, T): return a * k
    return ipoly({m: c * k for m, c in idict(a).items()})

def ineg(a): return imulc(a, -1)
def isub(a, b): return iadd(a, imulc(b, -1))

def _mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))

def imul(a, b):
    if not isinstance(a, T): return imulc(b, a) if isinstance(b, T) else a * b
    if not isinstance(b, T): return imulc(a, b)
    d = {}
    for m1, c1 in idict(a).items():
        for m2, c2 in idict(b).items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return ipoly(d)

def ifloordiv(a, b):
    """floor division by positive constant or symbolic"""
    if not isinstance(a, T) and not isinstance(b, T): return a // b
    if not isinstance(b, T):
        if b == 1: return a
        d = idict(a)
        if all(c % b == 0 for c in d.values()):
            return ipoly({m: c // b for m, c in d.items()})
        # pull out divisible part
        q = {m: c // b for m, c in d.items() if m != () and c % b == 0}
        r = {m: c for m, c in d.items() if not (m != () and c % b == 0)}
        k = r.get((), 0)
        if k:
            kq = k // b
            if kq:
                q[()] = kq; r[()] = k - kq * b
        rp = ipoly(r)
        if not isinstance(rp, T):
            return iadd(ipoly(q), rp // b)
        lo, hi = interval(rp)
        if lo is not None and hi is not None and lo // b == hi // b:
            return iadd(ipoly(q), lo // b)
        return iadd(ipoly(q), iatom(mk('idiv', (rp, b), 'I')))
    else:
        # exact polynomial quotient when b is a single monomial
        db = idict(b)
        if len(db) == 1:
            (mb, cb), = db.items()
            da = idict(a)
            q = {}
            ok = True
            for m, c in da.items():
                dm = dict(m)
                for at, e in mb:
                    if dm.get(at, 0) < e: ok = False; break
                    dm[at] -= e
                if not ok or c % cb: ok = False; break
                q[tuple(sorted(((at, e) for at, e in dm.items() if e), key=lambda x: x[0].id))] = c // cb
            if ok:
                return ipoly(q)
        return iatom(mk('idiv', (a, b), 'I'))

def imod(a, b):
    """floor modulus (result in [0,b) for b>0)"""
    if not isinstance(a, T) and not isinstance(b, T): return a % b
    return isub(a, imul(b, ifloordiv(a, b)))

def isplain(t):
    """is t a single atom poly"""
    return t.op == 'ip' and len(t.args) == 1 and t.args[0][1] == 1 and len(t.args[0][0]) == 1 and t.args[0][0][0][1] == 1

def interval(t):
    """(lo,hi) bounds, None = unbounded"""
    if not isinstance(t, T):
        return (t, t)
    if t.iv is not None:
        return t.iv
    r = (None, None)
    if t.op == 'ip':
        lo = 0; hi = 0
        for m, c in t.args:
            ml, mh = 1, 1
            for a, e in m:
                al, ah = interval(a)
                for _ in range(e):
                    ml, mh = _imulv((ml, mh), (al, ah))
                if e == 2 and (ml is None or ml < 0): ml = 0
            if c < 0: ml, mh = mh, ml
            lo = None if (lo is None or ml is None) else lo + c * ml
            hi = None if (hi is None or mh is None) else hi + c * mh
        r = (lo, hi)
    elif t.op == 'idiv':
        a, b = t.args
        if not isinstance(b, T) and b > 0:
            al, ah = interval(a)
            r = (None if al is None else al // b, None if ah is None else ah // b)
        else:
            al, ah = interval(a); bl, bh = interval(b)
            if al is not None and al >= 0 and bl is not None and bl >= 1:
                r = (0, None if ah is None else ah // bl)
    elif t.op == 'ite':
        l1, h1 = interval(t.args[1]); l2, h2 = interval(t.args[2])
        r = (None if l1 is None or l2 is None else min(l1, l2), None if h1 is None or h2 is None else max(h1, h2))
    t.iv = r
    return r

def _imulv(x, y):
    (a, b), (c, d) = x, y
    if None in (a, b, c, d):
        if a is not None and c is not None and a >= 0 and c >= 0:
            return (a * c, None if (b is None or d is None) else b * d)
        return (None, None)
    v = [a*c, a*d, b*c, b*d]
    return (min(v), max(v))

def toreal(a):
    if not isinstance(a, T): return rconst(a)
    return mk('toreal', (a,), 'R')

def ifloor(a):
    """floor of a real term, as Int"""
    a = rconst(a)
    if a.op == 'rc':
        return math.floor(a.args[0])
    if a.op == 'toreal':
        return a.args[0]
    return iatom(mk('floor', (a,), 'I'))

def itrunc(a):
    """C truncation toward zero of a real term"""
    a = rconst(a)
    if a.op == 'rc':
        return math.trunc(a.args[0])
    if a.op == 'toreal':
        return a.args[0]
    lo, hi = rinterval(a)
    if lo is not None and lo >= 0:
        return ifloor(a)
    return ite(rle(rconst(0), a), ifloor(a), ineg(ifloor(rneg(a))))

def rinterval(t):
    if t.op == 'rc': return (t.args[0], t.args[0])
    if t.op == 'rv': return t.iv if t.iv is not None else (None, None)
    if t.op == 'toreal': return interval(t.args[0])
    return (None, None)

# ---------------------------------------------------------------- bools
TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')

def bval(b):
    if isinstance(b, T): return b
    return TRUE if b else FALSE

def bnot(a):
    if not isinstance(a, T): return not a
    if a is TRUE: return False
    if a is FALSE: return True
    if a.op == 'not': return a.args[0]
    if a.op == 'lt': return mk('le', (a.args[1], a.args[0]), 'B')
    if a.op == 'le': return mk('lt', (a.args[1], a.args[0]), 'B')
    return mk('not', (a,), 'B')

def band(a, b):
    if not isinstance(a, T): return b if a else False
    if not isinstance(b, T): return a if b else False
    if a is b: return a
    if a is bnot(b): return False
    if a.id > b.id: a, b = b, a
    return mk('and', (a, b), 'B')

def bor(a, b):
    if not isinstance(a, T): return True if a else b
    if not isinstance(b, T): return True if b else a
    if a is b: return a
    if a is bnot(b): return True
    if a.id > b.id: a, b = b, a
    return mk('or', (a, b), 'B')

def rlt(a, b):
    a = rconst(a); b = rconst(b)
    if a.op == 'rc' and b.op == 'rc': return a.args[0] < b.args[0]
    if a is b: return False
    return mk('lt', (a, b), 'B')

def rle(a, b):
    a = rconst(a); b = rconst(b)
    if a.op == 'rc' and b.op == 'rc': return a.args[0] <= b.args[0]
    if a is b: return True
    return mk('le', (a, b), 'B')

def req(a, b):
    a = rconst(a); b = rconst(b)
    if a.op == 'rc' and b.op == 'rc': return a.args[0] == b.args[0]
    if a is b: return True
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')

def ilt(a, b):
    """a<b"""
    d = isub(a, b)
    if not isinstance(d, T): return d < 0
    lo, hi = interval(d)
    if hi is not None and hi < 0: return True
    if lo is not None and lo >= 0: return False
    return mk('lt', (d, 0), 'B')

def ile(a, b):
    # a<=b  <=>  a-b-1 < 0  ; keep as not(b<a) for canonical form
    return bnot(ilt(b, a))

def ieq(a, b):
    d = isub(a, b)
    if not isinstance(d, T): return d == 0
    lo, hi = interval(d)
    if hi is not None and hi < 0: return False
    if lo is not None and lo > 0: return False
    # normalise sign
    if d.args[-1][1] < 0: d = ineg(d)
    # gcd test
    g = 0
    for m, c in d.args:
        if m != (): g = math.gcd(g, c)
    k = dict(d.args).get((), 0)
    if g and k % g: return False
    if len(d.args) <= 2 and d.op == 'ip':
        # ite simplification: ite(c,k1,k2) == k
        m = [mm for mm, c in d.args if mm != ()]
        if len(m) == 1 and len(m[0]) == 1 and m[0][0][1] == 1 and m[0][0][0].op == 'ite':
            it = m[0][0][0]
            coef = dict(d.args)[m[0]]
            if not isinstance(it.args[1], T) and not isinstance(it.args[2], T):
                c1 = coef * it.args[1] + k == 0
                c2 = coef * it.args[2] + k == 0
                if c1 and c2: return True
                if c1: return it.args[0]
                if c2: return bnot(it.args[0])
                return False
    return mk('eq', (d, 0), 'B')

def beq(a, b):
    """boolean equality"""
    if not isinstance(a, T): return b if a else bnot(b)
    if not isinstance(b, T): return a if b else bnot(a)
    if a is b: return True
    return bor(band(a, b), band(bnot(a), bnot(b)))

def ite(c, a, b):
    if not isinstance(c, T): return a if c else b
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    ta = isinstance(a, T); tb = isinstance(b, T)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # sort
    if (ta and a.sort == 'B') or (tb and b.sort == 'B') or (isinstance(a, bool) and isinstance(b, bool)):
        return bor(band(c, a), band(bnot(c), b))
    if (ta and a.sort == 'R') or (tb and b.sort == 'R') or isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
        a = rconst(a); b = rconst(b)
        if a is b: return a
        if a.op == 'ite' and a.args[0] is c: a = a.args[1]
        if b.op == 'ite' and b.args[0] is c: b = b.args[2]
        return mk('ite', (c, a, b), 'R')
    if not ta and not tb and a == b: return a
    return iatom(mk('ite', (c, a, b), 'I'))
