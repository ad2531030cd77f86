"""Models of functions outside the verified translation unit set, and of the
vp_* specification intrinsics.  Everything here is part of the trusted base."""
import math, struct
from fractions import Fraction
import term as tm
from term import T, Unsupported

EXTERNS = {}
INTRIN = []

def ext(*names):
    def deco(f):
        for n in names: EXTERNS[n] = f
        return f
    return deco

def sx():
    import sx as m
    return m

def cstr(ex, st, p):
    out = []
    o = ex.getobj(st, p)
    off = p.off
    while True:
        b = ex.load(st, sx().Ptr(p.obj, off), ('i', 8))
        if not isinstance(b, int): raise Unsupported('symbolic C string')
        if b == 0: break
        out.append(b & 255); off += 1
    return bytes(out).decode('latin1')

# ------------------------------------------------------------------ math
def _m1(name, pyf):
    def h(ex, st, a, ats):
        x = a[0]
        if type(x) is float:
            try: return pyf(x)
            except (ValueError, OverflowError): return float('nan')
        x = ex.undefr(x)
        if name == 'sqrt':
            ss = st.info.get('sqrts', ())
            if x not in ss: st.info['sqrts'] = ss + (x,)
        return tm.uf(name, x)
    return h
for _n, _f in (('sqrt', math.sqrt), ('sin', math.sin), ('cos', math.cos), ('tan', math.tan), ('atan', math.atan),
               ('asin', math.asin), ('acos', math.acos), ('exp', math.exp), ('log', math.log), ('sinh', math.sinh), ('cosh', math.cosh),
               ('tanh', math.tanh)):
    EXTERNS[_n] = _m1(_n, _f)
    INTRIN.append(('llvm.%s.f64' % _n, EXTERNS[_n]))

@ext('fabs')
def _fabs(ex, st, a, ats):
    x = a[0]
    if type(x) is float: return abs(x)
    x = ex.undefr(x)
    if tm.rinterval(x)[0] is not None and tm.rinterval(x)[0] >= 0: return x
    return tm.uf('fabs', x)
INTRIN.append(('llvm.fabs.f64', _fabs))

@ext('atan2')
def _atan2(ex, st, a, ats):
    if type(a[0]) is float and type(a[1]) is float: return math.atan2(a[0], a[1])
    return tm.uf('atan2', ex.undefr(a[0]), ex.undefr(a[1]))

@ext('pow')
def _pow(ex, st, a, ats):
    x, y = a[0], a[1]
    if type(x) is float and type(y) is float:
        try: return math.pow(x, y)
        except (ValueError, OverflowError): return float('nan')
    x = ex.undefr(x)
    if type(y) is float and y == int(y) and 0 <= y <= 8:
        r = tm.rconst(1)
        for _ in range(int(y)): r = tm.rmul(r, x)
        return r
    if isinstance(y, T) and y.op == 'rc' and y.args[0].denominator == 1 and 0 <= y.args[0] <= 8:
        r = tm.rconst(1)
        for _ in range(int(y.args[0])): r = tm.rmul(r, x)
        return r
    return tm.uf('pow', x, ex.undefr(y))
INTRIN.append(('llvm.pow.f64', _pow))

@ext('floor')
def _floor(ex, st, a, ats):
    if type(a[0]) is float: return float(math.floor(a[0]))
    return tm.toreal(tm.ifloor(ex.undefr(a[0])))
INTRIN.append(('llvm.floor.f64', _floor))

@ext('ceil')
def _ceil(ex, st, a, ats):
    if type(a[0]) is float: return float(math.ceil(a[0]))
    return tm.rneg(tm.toreal(tm.ifloor(tm.rneg(ex.undefr(a[0])))))
INTRIN.append(('llvm.ceil.f64', _ceil))

@ext('round')
def _round(ex, st, a, ats):
    if type(a[0]) is float: return float(math.floor(abs(a[0]) + 0.5)) * (1.0 if a[0] >= 0 else -1.0)
    x = ex.undefr(a[0])
    h = tm.rconst(Fraction(1, 2))
    return tm.ite(tm.rle(tm.rconst(0), x), tm.toreal(tm.ifloor(tm.radd(x, h))), tm.rneg(tm.toreal(tm.ifloor(tm.radd(tm.rneg(x), h)))))
INTRIN.append(('llvm.round.f64', _round))

@ext('fmod')
def _fmod(ex, st, a, ats):
    x, y = a
    if type(x) is float and type(y) is float: return math.fmod(x, y)
    x = ex.undefr(x); y = ex.undefr(y)
    q = tm.rdiv(x, y)
    return tm.rsub(x, tm.rmul(y, tm.toreal(tm.itrunc(q))))

def _mm(kind):
    def h(ex, st, a, ats):
        x, y = a
        if type(x) is float and type(y) is float: return min(x, y) if kind == 'min' else max(x, y)
        x = ex.undefr(x); y = ex.undefr(y)
        c = tm.rlt(x, y)
        return tm.ite(c, x, y) if kind == 'min' else tm.ite(c, y, x)
    return h
EXTERNS['fmin'] = _mm('min'); EXTERNS['fmax'] = _mm('max')
INTRIN.append(('llvm.minnum.f64', _mm('min'))); INTRIN.append(('llvm.maxnum.f64', _mm('max')))

def _fmuladd(ex, st, a, ats):
    x, y, z = a
    if all(type(v) is float for v in a): return x * y + z
    return tm.radd(tm.rmul(ex.undefr(x), ex.undefr(y)), ex.undefr(z))
INTRIN.append(('llvm.fmuladd.f64', _fmuladd))

def _copysign(ex, st, a, ats):
    if type(a[0]) is float and type(a[1]) is float: return math.copysign(*a)
    raise Unsupported('copysign')
INTRIN.append(('llvm.copysign', _copysign))

def _iabs(ex, st, a, ats):
    x = a[0]
    if isinstance(x, int): return abs(x)
    return tm.ite(tm.ilt(x, 0), tm.ineg(x), x)
EXTERNS['abs'] = _iabs
INTRIN.append(('llvm.abs', _iabs))

def _imm(sel):
    def h(ex, st, a, ats):
        x, y = a
        n = ats[0][1]
        if sel[0] == 'u': x = ex.u(st, x, n); y = ex.u(st, y, n)
        if isinstance(x, int) and isinstance(y, int): return min(x, y) if sel[1:] == 'min' else max(x, y)
        c = tm.ilt(x, y)
        return tm.ite(c, x, y) if sel[1:] == 'min' else tm.ite(c, y, x)
    return h
for _s in ('smin', 'smax', 'umin', 'umax'):
    INTRIN.append(('llvm.' + _s, _imm(_s)))

def _ovf(op):
    def h(ex, st, a, ats):
        n = ats[0][1]
        x = ex.u(st, a[0], n); y = ex.u(st, a[1], n)
        v = {'mul': tm.imul, 'add': tm.iadd, 'sub': tm.isub}[op](x, y)
        if not isinstance(v, T):
            return (sx().wrap(v, n), not (0 <= v < (1 << n)))
        ok = tm.band(tm.ile(0, v), tm.ilt(v, 1 << n))
        if ex.must(st, ok) is True: return (v, False)
        ex.assumed.add('allocation sizes do not overflow 64 bits')
        return (v, False)
    return h
for _s in ('mul', 'add', 'sub'):
    INTRIN.append(('llvm.u%s.with.overflow' % _s, _ovf(_s)))

INTRIN.append(('llvm.expect', lambda ex, st, a, ats: a[0]))
INTRIN.append(('llvm.is.constant', lambda ex, st, a, ats: False))
INTRIN.append(('llvm.objectsize', lambda ex, st, a, ats: -1))
INTRIN.append(('llvm.prefetch', lambda ex, st, a, ats: None))

def _trap(ex, st, a, ats):
    ex.fail(st, 'trap', 'program trap reached')
    raise sx().PathEnd('trap')
INTRIN.append(('llvm.trap', _trap))

def _memcpy(ex, st, a, ats):
    ex.memcpy(st, pp(ex, a[0]), pp(ex, a[1]), a[2]); return a[0]
def _memset(ex, st, a, ats):
    ex.memset(st, pp(ex, a[0]), a[1], a[2]); return a[0]
def pp(ex, p):
    if type(p) is not sx().Ptr: return ex.asptr(p)
    return p
INTRIN += [('llvm.memcpy', _memcpy), ('llvm.memmove', _memcpy), ('llvm.memset', _memset)]
EXTERNS['memcpy'] = _memcpy; EXTERNS['memmove'] = _memcpy; EXTERNS['memset'] = _memset

def _eh_typeid(ex, st, a, ats):
    p = a[0]
    nm = ex.gname.get(p.obj)
    return ex.typeid(nm)
INTRIN.append(('llvm.eh.typeid.for', _eh_typeid))

def _ctlz(ex, st, a, ats):
    n = ats[0][1]
    if isinstance(a[0], int):
        v = a[0] & ((1 << n) - 1)
        return n - v.bit_length()
    raise Unsupported('ctlz')
INTRIN.append(('llvm.ctlz', _ctlz))

# ------------------------------------------------------------------ memory
@ext('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _malloc(ex, st, a, ats):
    n = a[0]
    if isinstance(n, T) and not n.sort == 'I': raise Unsupported('malloc size')
    return ex.newobj(st, n, 'heap', alloc='heap')

@ext('calloc')
def _calloc(ex, st, a, ats):
    return ex.newobj(st, tm.imul(a[0], a[1]), 'heap', default=0, alloc='heap')

@ext('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def _free(ex, st, a, ats):
    p = a[0]
    if not isinstance(p, sx().Ptr): p = ex.asptr(p)
    if p.obj == 0 and p.off == 0: return None
    o = ex.wobj(st, p)
    if o.alloc != 'heap':
        ex.fail(st, 'mem', 'free of non-heap object'); raise sx().PathEnd('memfail')
    if o.freed:
        ex.fail(st, 'mem', 'double free'); raise sx().PathEnd('memfail')
    if not (isinstance(p.off, int) and p.off == 0):
        ex.fail(st, 'mem', 'free of interior pointer')
    o.freed = True
    return None

@ext('realloc')
def _realloc(ex, st, a, ats):
    p, n = a
    q = ex.newobj(st, n, 'heap', alloc='heap')
    if p.obj != 0:
        o = ex.getobj(st, p)
        ex.memcpy(st, q, p, min(o.size, n))
        ex.wobj(st, p).freed = True
    return q

@ext('strlen')
def _strlen(ex, st, a, ats):
    p = a[0]; k = 0
    while True:
        b = ex.load(st, sx().Ptr(p.obj, p.off + k), ('i', 8))
        if isinstance(b, int):
            if b == 0: return k
        else:
            if ex.must(st, tm.bnot(tm.ieq(b, 0))) is not True: raise Unsupported('strlen of symbolic string')
        k += 1

@ext('memcmp', 'bcmp')
def _memcmp(ex, st, a, ats):
    p, q, n = a
    if not isinstance(n, int): raise Unsupported('memcmp size')
    eq = True
    for k in range(n):
        x = ex.load(st, sx().Ptr(p.obj, tm.iadd(p.off, k)), ('i', 8)); y = ex.load(st, sx().Ptr(q.obj, tm.iadd(q.off, k)), ('i', 8))
        if isinstance(x, int) and isinstance(y, int):
            x &= 255; y &= 255
            if x != y and eq is True: return -1 if x < y else 1
            if x != y: eq = False
        else:
            eq = tm.band(eq, tm.ieq(x, y))
    if eq is True: return 0
    if eq is False: return 1
    return tm.ite(eq, 0, 1)

@ext('strcmp')
def _strcmp(ex, st, a, ats):
    x = cstr(ex, st, a[0]); y = cstr(ex, st, a[1])
    return 0 if x == y else (-1 if x < y else 1)

@ext('strncmp')
def _strncmp(ex, st, a, ats):
    x = cstr(ex, st, a[0])[:a[2]]; y = cstr(ex, st, a[1])[:a[2]]
    return 0 if x == y else (-1 if x < y else 1)

@ext('strcpy')
def _strcpy(ex, st, a, ats):
    s = cstr(ex, st, a[1])
    for k, c in enumerate(s + '\0'):
        ex.store(st, sx().Ptr(a[0].obj, a[0].off + k), sx().wrap(ord(c), 8), ('i', 8))
    return a[0]

@ext('memchr')
def _memchr(ex, st, a, ats):
    p, c, n = a
    for k in range(n):
        x = ex.load(st, sx().Ptr(p.obj, p.off + k), ('i', 8))
        if not isinstance(x, int): raise Unsupported('memchr')
        if (x & 255) == (c & 255): return sx().Ptr(p.obj, p.off + k)
    return sx().NULL

# ------------------------------------------------------------------ text (printf / scanf family, integer directives only)
def put(ex, st, p, chars):
    for k, c in enumerate(chars):
        ex.store(st, sx().Ptr(p.obj, tm.iadd(p.off, k)), c, ('i', 8))

def format_chars(ex, st, fmt, args):
    out = []; i = 0; ai = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(ord(c)); i += 1; continue
        i += 1
        if fmt[i] == '%':
            out.append(37); i += 1; continue
        flags = ''
        while fmt[i] in '-+ 0#': flags += fmt[i]; i += 1
        w = ''
        while fmt[i].isdigit(): w += fmt[i]; i += 1
        prec = None
        if fmt[i] == '.':
            i += 1; prec = ''
            while fmt[i].isdigit(): prec += fmt[i]; i += 1
        while fmt[i] in 'lhz': i += 1
        conv = fmt[i]; i += 1
        v = args[ai]; ai += 1
        if conv == 's':
            out += [ord(x) for x in cstr(ex, st, v)]
            continue
        if conv in 'diu':
            if isinstance(v, int):
                s = ('%' + flags + w + 'd') % v
                out += [ord(x) for x in s]
                continue
            width = int(w) if w else 0
            if '-' in flags or '+' in flags or (' ' in flags): raise Unsupported('printf flags')
            ok = tm.band(tm.ile(0, v), tm.ilt(v, 10 ** width))
            fixed = '0' in flags and width and ex.must(st, ok) is True
            if not fixed:
                cases = [tm.ilt(v, 0), tm.band(tm.ile(0, v), tm.ilt(v, 10))] + [tm.band(tm.ile(10 ** k, v), tm.ilt(v, 10 ** (k + 1))) for k in range(1, 10)]
                hit = [k for k, c in enumerate(cases) if c is True or ex.must(st, c) is True]
                if not hit: raise sx().Refork(cases)
                if hit[0] == 0: raise Unsupported('symbolic negative number printed')
                nd = hit[0]
                if nd < width: out += [48 if '0' in flags else 32] * (width - nd)
                width = nd
            for k in range(width - 1, -1, -1):
                d = tm.imod(tm.ifloordiv(v, 10 ** k), 10)
                out.append(tm.iadd(48, d))
            continue
        if conv == 'c' and not w:
            out.append(v & 255 if isinstance(v, int) else v)
            continue
        if conv in 'feg' and type(v) is float:
            s = ('%' + flags + w + ('.' + prec if prec is not None else '') + conv) % v
            out += [ord(x) for x in s]
            continue
        raise Unsupported('printf directive ' + conv)
    return out

@ext('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm')
def _mcreate(ex, st, a, ats):
    cap = ex.load(st, a[1], ('i', 64)); old = a[2]
    if not isinstance(cap, int) or not isinstance(old, int): raise Unsupported('symbolic string capacity')
    if cap > old and cap < 2 * old: cap = 2 * old
    ex.store(st, a[1], cap, ('i', 64))
    return ex.newobj(st, cap + 1, 'string', alloc='heap')

@ext('sprintf')
def _sprintf(ex, st, a, ats):
    ch = format_chars(ex, st, cstr(ex, st, a[1]), a[2:])
    put(ex, st, a[0], ch + [0])
    return len(ch)

@ext('snprintf')
def _snprintf(ex, st, a, ats):
    ch = format_chars(ex, st, cstr(ex, st, a[2]), a[3:])
    n = a[1]
    if n > 0: put(ex, st, a[0], ch[:n - 1] + [0])
    return len(ch)

def isdig(ex, st, b):
    if isinstance(b, int): return 48 <= (b & 255) <= 57
    if ex.must(st, tm.band(tm.ile(48, b), tm.ile(b, 57))) is True: return True
    if ex.must(st, tm.bor(tm.ilt(b, 48), tm.ilt(57, b))) is True: return False
    raise Unsupported('character may or may not be a digit')

def parse_int(ex, st, p, maxw=None):
    """strtol base 10: returns (value, end offset, any)"""
    off = p.off; neg = False
    ld = lambda o: ex.load(st, sx().Ptr(p.obj, o), ('i', 8))
    b = ld(off)
    while isinstance(b, int) and b in (32, 9, 10, 13): off += 1; b = ld(off)
    if isinstance(b, int) and b in (43, 45):
        neg = b == 45; off += 1; b = ld(off)
    v = 0; n = 0
    while (maxw is None or n < maxw):
        b = ld(off)
        if not isdig(ex, st, b): break
        v = tm.iadd(tm.imulc(v, 10), tm.isub(b, 48)); off += 1; n += 1
    if neg: v = tm.ineg(v)
    if isinstance(v, T): v = recombine(ex, st, v)
    return v, off, n > 0

def recombine(ex, st, v):
    """sum of decimal digits of x -> x, decided by the solver"""
    cands = set()
    for m, c in tm.idict(v).items():
        for at, e in m:
            if at.op == 'idiv' and not isinstance(at.args[1], T): cands.add(at.args[0])
            if at.op == 'iv': cands.add(tm.iatom(at))
    for x in cands:
        if ex.must(st, tm.ieq(v, x)) is True: return x
    return v

@ext('atoi')
def _atoi(ex, st, a, ats):
    return parse_int(ex, st, a[0])[0]

@ext('strtol', '__isoc23_strtol')
def _strtol(ex, st, a, ats):
    v, off, ok = parse_int(ex, st, a[0])
    if a[1].obj: ex.store(st, a[1], sx().Ptr(a[0].obj, off if ok else a[0].off), 'ptr')
    return v

@ext('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')
def _sscanf(ex, st, a, ats):
    fmt = cstr(ex, st, a[1]); p = a[0]; i = 0; ai = 2; n = 0
    off = p.off
    while i < len(fmt):
        c = fmt[i]
        if c == '%':
            i += 1; w = ''
            while fmt[i].isdigit(): w += fmt[i]; i += 1
            if fmt[i] not in 'di': raise Unsupported('sscanf directive')
            i += 1
            v, o2, ok = parse_int(ex, st, sx().Ptr(p.obj, off), int(w) if w else None)
            if not ok: return n
            off = o2
            ex.store(st, a[ai], v, ('i', 32)); ai += 1; n += 1
        else:
            b = ex.load(st, sx().Ptr(p.obj, off), ('i', 8))
            if not isinstance(b, int): 
                if ex.must(st, tm.ieq(b, ord(c))) is not True: return n
            elif b != ord(c): return n
            off += 1; i += 1
    return n

for _n in ('printf', 'puts', 'putchar', 'fprintf', 'vprintf', 'vfprintf', 'fflush', 'fputs', 'fwrite', 'fputc',
           '_Z8AnnouncePKcz', '_Z18AnnounceStartBlockPKcz', '_Z16AnnounceEndBlockPKcz', '_Z14AnnounceBannerPKcz',
           '_Z8AnnounceiPKcz', '_Z14AnnounceBannerv', '_Z18AnnounceStartBlockiPKcz', '_Z16AnnounceEndBlockiPKcz',
           '_Z20AnnounceSetVerbosityi', '_Z23AnnounceOutputOnAllRanksv', '_Z28AnnounceOnlyOutputOnRankZerov'):
    EXTERNS[_n] = lambda ex, st, a, ats: 0

# ------------------------------------------------------------------ C++ runtime
@ext('__cxa_guard_acquire')
def _ga(ex, st, a, ats):
    b = ex.load(st, a[0], ('i', 8))
    return 0 if b else 1

@ext('__cxa_guard_release')
def _gr(ex, st, a, ats):
    ex.store(st, a[0], 1, ('i', 8)); return None

@ext('__cxa_guard_abort', '__cxa_atexit', 'atexit')
def _nop(ex, st, a, ats): return 0

@ext('__cxa_allocate_exception')
def _alloc_exc(ex, st, a, ats):
    # the exception object's message is not modelled: unwinding starts here
    raise sx().Throw(('_ZTI9Exception', 0))

@ext('__cxa_throw')
def _throw(ex, st, a, ats):
    raise sx().Throw((ex.gname.get(a[1].obj), 0))

@ext('__cxa_free_exception', '__cxa_end_catch')
def _cfe(ex, st, a, ats): return None

@ext('__cxa_begin_catch')
def _cbc(ex, st, a, ats): return a[0]

@ext('__cxa_rethrow')
def _rethrow(ex, st, a, ats):
    raise sx().Throw((st.cur_exc[0] if st.cur_exc else None, 0))

for _n in ('_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz',
           '_ZSt19__throw_logic_errorPKc', '_ZSt17__throw_bad_allocv', '__cxa_throw_bad_array_new_length',
           '_ZSt28__throw_bad_array_new_lengthv', '_ZSt16__throw_bad_castv', '_ZSt24__throw_invalid_argumentPKc',
           '_ZSt25__throw_bad_function_callv'):
    def _mk(n):
        def h(ex, st, a, ats): raise sx().Throw(('std:' + n, 0))
        return h
    EXTERNS[_n] = _mk(_n)

@ext('_ZSt9terminatev', '__clang_call_terminate', 'abort', 'exit', '_exit', '__cxa_pure_virtual', '__assert_fail')
def _term(ex, st, a, ats):
    ex.fail(st, 'abort', 'program termination reached')
    raise sx().PathEnd('abort')

def ti_bases(ex, ti):
    """list of (base typeinfo name, offset) from an IR typeinfo global"""
    g = ex.m.globals.get(ti)
    if g is None or g[2] is None: return []
    f = [v for t, v in g[2][1]]
    vt = f[0]
    s = repr(vt)
    if 'si_class' in s: return [(f[2][1], 0)]
    if 'vmi_class' in s:
        out = []
        i = 4
        while i + 1 < len(f):
            out.append((f[i][1], f[i + 1][1] >> 8)); i += 2
        return out
    return []

def ti_find(ex, ti, target, off=0):
    if ti == target: return off
    for b, o in ti_bases(ex, ti):
        r = ti_find(ex, b, target, off + o)
        if r is not None: return r
    return None

@ext('__dynamic_cast')
def _dyncast(ex, st, a, ats):
    p, src, dst = a[0], a[1], a[2]
    Ptr = sx().Ptr
    vt = ex.load(st, p, 'ptr')
    if not isinstance(vt, Ptr): raise Unsupported('dynamic_cast on non-object')
    top = ex.load(st, Ptr(vt.obj, vt.off - 16), ('i', 64))
    ti = ex.load(st, Ptr(vt.obj, vt.off - 8), 'ptr')
    r = ti_find(ex, ex.gname[ti.obj], ex.gname[dst.obj])
    if r is None: return sx().NULL
    return Ptr(p.obj, tm.iadd(tm.iadd(p.off, top), r))

# ------------------------------------------------------------------ MPI (single process model)
def _mpi_out(k, v):
    def h(ex, st, a, ats):
        ex.store(st, a[k], v, ('i', 32)); return 0
    return h
EXTERNS['MPI_Comm_rank'] = _mpi_out(1, 0)
EXTERNS['MPI_Comm_size'] = _mpi_out(1, 1)
EXTERNS['MPI_Initialized'] = _mpi_out(0, 1)
for _n in ('MPI_Barrier', 'MPI_Wait', 'MPI_Waitall', 'MPI_Isend', 'MPI_Irecv', 'MPI_Send', 'MPI_Recv'):
    EXTERNS[_n] = lambda ex, st, a, ats: 0

# ------------------------------------------------------------------ std::list hooks (libstdc++.so)
@ext('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def _lhook(ex, st, a, ats):
    # this inserted before pos: node{next,prev}
    Ptr = sx().Ptr
    n, pos = a
    prev = ex.load(st, Ptr(pos.obj, pos.off + 8), 'ptr')
    ex.store(st, n, pos, 'ptr'); ex.store(st, Ptr(n.obj, n.off + 8), prev, 'ptr')
    ex.store(st, prev, n, 'ptr'); ex.store(st, Ptr(pos.obj, pos.off + 8), n, 'ptr')
    return None

# ------------------------------------------------------------------ specification intrinsics
def uniq(st, nm, ex=None):
    d = dict(st.info.get('names', {}))
    k = d.get(nm, 0); d[nm] = k + 1
    st.info['names'] = d
    return nm if k == 0 else '%s#%d' % (nm, k)

def nomerge(ex):
    if ex.inmerge: raise Unsupported('specification intrinsic inside a merged region')

@ext('vp_real')
def _vreal(ex, st, a, ats):
    nomerge(ex)
    nm = uniq(st, cstr(ex, st, a[0]))
    t = tm.rvar(nm)
    ex.vars[nm] = ('R', None, None)
    return t

@ext('vp_real_in')
def _vrealin(ex, st, a, ats):
    nomerge(ex)
    nm = uniq(st, cstr(ex, st, a[0]))
    t = tm.rvar(nm)
    lo, hi = Fraction(a[1]), Fraction(a[2])
    t.iv = (lo, hi)
    ex.vars[nm] = ('R', lo, hi)
    c = tm.mk('le', (tm.rconst(lo), t), 'B'); st.pc.append(c)
    c = tm.mk('le', (t, tm.rconst(hi)), 'B'); st.pc.append(c)
    return t

@ext('vp_int')
def _vint(ex, st, a, ats):
    nomerge(ex)
    nm = uniq(st, cstr(ex, st, a[0]))
    lo, hi = a[1], a[2]
    if lo == hi: 
        st.info['choices'] = st.info.get('choices', ()) + ((nm, lo),)
        return lo
    at = tm.mk('iv', (nm,), 'I'); at.iv = (lo, hi)
    t = tm.iatom(at)
    t.iv = (lo, hi)
    ex.vars[nm] = ('I', lo, hi)
    st.pc.append(tm.mk('le', (0, tm.isub(t, lo)), 'B'))
    st.pc.append(tm.mk('le', (0, tm.isub(hi, t)), 'B'))
    return t

@ext('vp_choice')
def _vchoice(ex, st, a, ats):
    nomerge(ex)
    nm0 = cstr(ex, st, a[0])
    lo, hi = a[1], a[2]
    ov = ex.opts.get('choices', {}).get(nm0)
    nm = uniq(st, nm0)
    vals = [v for v in range(lo, hi + 1) if ov is None or v in ov]
    if not vals: raise sx().PathEnd('assume')
    fr = st.frames[-1]
    base = st.info.get('choices', ())
    # fork: the call instruction's result is written by the caller of this handler
    dst = ex.cur_dst
    for v in vals[1:]:
        s2 = st.fork(ex)
        s2.info['choices'] = base + ((nm, v),)
        f2 = s2.frames[-1]
        if dst is not None: f2.env[dst] = v
        if ex.cur_norm is not None: ex.jump(s2, f2, ex.cur_norm)
        else: f2.ip += 1
        ex.work.append(s2)
    st.info['choices'] = base + ((nm, vals[0]),)
    return vals[0]

@ext('vp_assume')
def _vassume(ex, st, a, ats):
    c = a[0]
    if isinstance(c, int) and not isinstance(c, bool): c = c != 0
    if isinstance(c, T) and c.sort == 'I': c = tm.bnot(tm.ieq(c, 0))
    if c is False: raise sx().PathEnd('assume')
    if isinstance(c, T):
        st.pc.append(c)
        if not ex.feasible(st, tm.TRUE): raise sx().PathEnd('assume')
    return None

@ext('vp_check')
def _vcheck(ex, st, a, ats):
    c = a[0]
    if isinstance(c, int) and not isinstance(c, bool): c = c != 0
    if isinstance(c, T) and c.sort == 'I': c = tm.bnot(tm.ieq(c, 0))
    if c is sx().UNDEF: c = tm.mk('bv', (ex.fresh('undef'),), 'B')
    ex.oblige(st, 'check', cstr(ex, st, a[1]), c)
    return None

def _rv(ex, st, x, lab):
    if x is sx().UNDEF:
        ex.fail(st, 'undef', lab + ': value is uninitialised')
        raise sx().PathEnd('undef')
    return x

@ext('vp_eq')
def _veq(ex, st, a, ats):
    lab = cstr(ex, st, a[2])
    x = _rv(ex, st, a[0], lab); y = _rv(ex, st, a[1], lab)
    if type(x) is float and type(y) is float:
        s = max(1.0, abs(x), abs(y))
        ex.oblige(st, 'eq', lab, x == y or abs(x - y) <= 1e-10 * s)
        return None
    if (type(x) is float and x != x) or (type(y) is float and y != y):
        ex.oblige(st, 'eq', lab, False); return None
    x = tm.rconst(x); y = tm.rconst(y)
    if x is y: ex.oblige(st, 'eq', lab, True)
    else:
        ex.obls.append(dict(kind='eq', label=lab, pc=list(st.pc), cond=tm.mk('eq', (x, y), 'B'), where=ex.where(st)[-3:], data=(x, y), info=st.info))
    return None

@ext('vp_eq_tol')
def _veqtol(ex, st, a, ats):
    lab = cstr(ex, st, a[3])
    x = _rv(ex, st, a[0], lab); y = _rv(ex, st, a[1], lab); tol = a[2]
    if type(x) is float and type(y) is float:
        ex.oblige(st, 'eqtol', lab, abs(x - y) <= tol)
        return None
    x = tm.rconst(x); y = tm.rconst(y)
    ex.obls.append(dict(kind='eqtol', label=lab, pc=list(st.pc), cond=tm.mk('eq', (x, y), 'B'), where=ex.where(st)[-3:], data=(x, y, Fraction(tol)), info=st.info))
    return None

@ext('vp_symbolic')
def _vsym(ex, st, a, ats): return 1

@ext('vp_reach')
def _vreach(ex, st, a, ats):
    lab = cstr(ex, st, a[0])
    ex.reached[lab] = ex.reached.get(lab, 0) + 1
    return None

@ext('vp_replace')
def _vrepl(ex, st, a, ats):
    n = cstr(ex, st, a[0])
    ns = [f for f in list(ex.m.funcs) + list(ex.m.decls) if f == n]
    g = ex.m.globals.get(n)
    if not ns and g is not None and g[0] == 'alias' and type(ex.const(g[1], 'ptr')).__name__ == 'Fn':
        ns = [ex.const(g[1], 'ptr').name]
    if not ns: raise Unsupported('vp_replace: no function ' + n)
    ex.stubs[ns[0]] = a[1].name
    ex.assumed.add('contract stub for ' + n)
    return None

@ext('vp_model')
def _vmodel(ex, st, a, ats):
    n = cstr(ex, st, a[0])
    if n in ex.m.funcs or n in ex.m.decls:
        ex.stubs[n] = a[1].name
        ex.assumed.add('contract stub for ' + n)
    return None

@ext('vp_loop')
def _vloop(ex, st, a, ats):
    """vp_loop(function, inv, arg, n, cand): invariant for every loop of the function"""
    import loops
    loops.install(ex)
    ex.loopspecs[cstr(ex, st, a[0])] = loops.Spec(a[1].name, a[2], a[3], a[4].name if hasattr(a[4], 'name') else None)
    return None

@ext('vp_loop_general')
def _vloopg(ex, st, a, ats):
    """vp_loop_general(function, p, bytes): the scalar at p is generalised at the loop head"""
    ex.loopspecs[cstr(ex, st, a[0])].gen.append((a[1].obj, a[1].off, a[2]))
    return None

@ext('vp_merge')
def _vmerge(ex, st, a, ats):
    ex.merge = bool(a[0]); return None

@ext('vp_overflow_check')
def _vovf(ex, st, a, ats):
    ex.overflow = 'check' if a[0] else 'assume'; return None

@ext('vp_ieee')
def _vieee(ex, st, a, ats):
    ex.ieee = bool(a[0]); return None

@ext('vp_sym_array')
def _vsyma(ex, st, a, ats):
    """fill n doubles at p with symbols name[k]"""
    p, n = a[0], a[1]
    nm = uniq(st, cstr(ex, st, a[2]))
    if not isinstance(n, int): raise Unsupported('vp_sym_array size')
    for k in range(n):
        v = tm.rvar('%s[%d]' % (nm, k))
        ex.vars['%s[%d]' % (nm, k)] = ('R', None, None)
        ex.store(st, sx().Ptr(p.obj, tm.iadd(p.off, 8 * k)), v, 'double')
    return None

@ext('vp_alloc_array')
def _valloca(ex, st, a, ats):
    """double array of symbolic length n with arbitrary contents"""
    n = a[0]; nm = uniq(st, cstr(ex, st, a[1]))
    p = ex.newobj(st, tm.imulc(n, 8), nm, alloc='heap')
    st.mem[p.obj].default = ('array', nm, 8, 'R')
    return p

@ext('vp_poison')
def _vpoison(ex, st, a, ats):
    """mark n doubles as uninitialised"""
    p, n = a[0], a[1]
    o = ex.wobj(st, p)
    for k in range(n):
        ex.putcell(o, p.off + 8 * k, 8, sx().UNDEF)
    return None

@ext('vp_is_poison')
def _vispoison(ex, st, a, ats):
    v = ex.load(st, a[0], 'double')
    return 1 if v is sx().UNDEF else 0

@ext('vp_print')
def _vprint(ex, st, a, ats):
    import os
    if os.environ.get('VP_DEBUG'):
        x = a[1]
        print('vp_print', cstr(ex, st, a[0]), str(x)[:400])
    return None

@ext('gettimeofday')
def _gtod(ex, st, a, ats):
    ex.assumed.add('the wall clock does not influence results')
    P = sx().Ptr
    for o in (0, 8): ex.store(st, P(a[0].obj, tm.iadd(a[0].off, o)), 0, ('i', 64))
    return 0

# ------------------------------------------------------------------ LAPACK
@ext('dgesv_')
def _dgesv(ex, st, a, ats):
    """assumed contract: dgesv solves A X = B (column major); A nonsingular"""
    P = sx().Ptr
    ld = lambda p, o, ty: ex.load(st, P(p.obj, tm.iadd(p.off, o)), ty)
    n, nrhs, lda, ldb = (ld(a[k], 0, ('i', 32)) for k in (0, 1, 3, 6))
    if not all(isinstance(v, int) for v in (n, nrhs, lda, ldb)): raise Unsupported('dgesv with symbolic size')
    ex.assumed.add('LAPACK dgesv returns the solution of a nonsingular linear system')
    A = [[ld(a[2], 8 * (i + j * lda), 'double') for j in range(n)] for i in range(n)]
    B = [[ld(a[5], 8 * (i + j * ldb), 'double') for j in range(nrhs)] for i in range(n)]
    A = [[v if type(v) is float else ex.undefr(v) for v in r] for r in A]
    B = [[v if type(v) is float else ex.undefr(v) for v in r] for r in B]
    if all(type(v) is float for r in A + B for v in r):
        M = [[Fraction(v) for v in A[i] + B[i]] for i in range(n)]
        info = 0
        for c in range(n):
            p = max(range(c, n), key=lambda i: abs(M[i][c]))
            if M[p][c] == 0: info = c + 1; break
            M[c], M[p] = M[p], M[c]
            for i in range(c + 1, n):
                f = M[i][c] / M[c][c]
                if f: M[i] = [x - f * y for x, y in zip(M[i], M[c])]
        if not info:
            X = [[None] * nrhs for _ in range(n)]
            for j in range(nrhs):
                for i in range(n - 1, -1, -1):
                    X[i][j] = (M[i][n + j] - sum(M[i][k] * X[k][j] for k in range(i + 1, n))) / M[i][i]
            X = [[float(v) for v in r] for r in X]
    else:
        info = 0
        nm = uniq(st, 'dgesv')
        X = [[tm.rvar('%s[%d][%d]' % (nm, i, j)) for j in range(nrhs)] for i in range(n)]
        for i in range(n):
            for j in range(nrhs):
                ex.vars['%s[%d][%d]' % (nm, i, j)] = ('R', None, None)
                s = 0.0
                for k in range(n): s = tm.radd(s, tm.rmul(A[i][k], X[k][j]))
                ex.assume(st, tm.req(s, B[i][j]))
    if not info:
        for i in range(n):
            for j in range(nrhs): ex.store(st, P(a[5].obj, tm.iadd(a[5].off, 8 * (i + j * ldb))), X[i][j], 'double')
        for i in range(n): ex.store(st, P(a[4].obj, tm.iadd(a[4].off, 4 * i)), i + 1, ('i', 32))
    ex.store(st, a[7], info, ('i', 32))
    return None

@ext('dgesvd_')
def _dgesvd(ex, st, a, ats):
    """assumed contract: dgesvd computes a singular value decomposition (concrete matrices only)"""
    P = sx().Ptr
    ld = lambda p, o, ty: ex.load(st, P(p.obj, tm.iadd(p.off, o)), ty)
    ju, jv = ld(a[0], 0, ('i', 8)), ld(a[1], 0, ('i', 8))
    m, n, lda, ldu, ldvt = (ld(a[k], 0, ('i', 32)) for k in (2, 3, 5, 8, 10))
    if (ju, jv) != (83, 83): raise Unsupported('dgesvd job')
    A = [[ld(a[4], 8 * (i + j * lda), 'double') for j in range(n)] for i in range(m)]
    if not all(type(v) is float for r in A for v in r): raise Unsupported('symbolic dgesvd')
    import numpy
    ex.assumed.add('LAPACK dgesvd returns a singular value decomposition')
    U, S, VT = numpy.linalg.svd(numpy.array(A), full_matrices=False)
    stv = lambda p, o, v: ex.store(st, P(p.obj, tm.iadd(p.off, o)), float(v), 'double')
    k = min(m, n)
    for j in range(k):
        stv(a[6], 8 * j, S[j])
        for i in range(m): stv(a[7], 8 * (i + j * ldu), U[i][j])
    for j in range(n):
        for i in range(k): stv(a[9], 8 * (i + j * ldvt), VT[i][j])
    ex.store(st, a[13], 0, ('i', 32))
    return None

@ext('mkdir')
def _mkdir(ex, st, a, ats): return 0
