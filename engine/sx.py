"""Symbolic executor / VC generator over LLVM IR."""
import struct, math, sys, os, time, subprocess, re
from fractions import Fraction
import ir as IR
import term as tm
from term import T, Unsupported

sys.setrecursionlimit(20000)

class Ptr(object):
    __slots__ = ('obj', 'off')
    def __init__(self, o, f):
        self.obj = o; self.off = f
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

NULL = Ptr(0, 0)

class Fn(object):
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return 'Fn(%s)' % self.name

class Undef(object):
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Obj(object):
    __slots__ = ('id', 'size', 'cells', 'default', 'owner', 'name', 'log', 'freed', 'alloc', 'const', 'elem')
    def __init__(self, id, size, name, owner, default=UNDEF, alloc='stack'):
        self.id = id; self.size = size; self.cells = {}; self.default = default
        self.owner = owner; self.name = name; self.log = None; self.freed = False; self.alloc = alloc
        self.const = False; self.elem = None
    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id = self.id; o.size = self.size; o.cells = dict(self.cells); o.default = self.default
        o.owner = owner; o.name = self.name; o.log = list(self.log) if self.log is not None else None
        o.freed = self.freed; o.alloc = self.alloc; o.const = self.const; o.elem = self.elem
        return o

class Frame(object):
    __slots__ = ('fn', 'env', 'bb', 'ip', 'prev', 'dst', 'norm', 'unw', 'blocks', 'stub', 'loops', 'onret')
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.env = list(self.env); f.bb = self.bb; f.ip = self.ip; f.prev = self.prev
        f.dst = self.dst; f.norm = self.norm; f.unw = self.unw; f.blocks = self.blocks; f.stub = self.stub
        f.loops = dict(self.loops) if self.loops else None
        f.onret = self.onret
        return f

class State(object):
    __slots__ = ('frames', 'mem', 'pc', 'tok', 'status', 'cur_exc', 'steps', 'info', 'sent', 'excobj')
    def fork(self, ex):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.status = self.status
        s.cur_exc = self.cur_exc
        s.steps = self.steps
        s.info = dict(self.info)
        s.sent = self.sent
        s.excobj = self.excobj
        self.tok = ex.newtok(); s.tok = ex.newtok()
        return s

class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind; self.msg = msg

class Refork(Unsupported):
    """case split requested by a library model: the instruction is re-executed under each condition"""
    def __init__(self, conds):
        Unsupported.__init__(self, 'case split inside a merged region'); self.conds = conds

class Throw(Exception):
    pass

CALLED = object()

def wrap(v, n):
    """wrap python int to signed n-bit"""
    m = 1 << n
    v &= m - 1
    return v - m if v >= (m >> 1) else v

class Engine(object):
    def __init__(self, mod, solver, opts=None):
        self.m = mod
        self.solver = solver
        self.opts = opts or {}
        self.tokc = 0
        self.objc = 16
        self.gobj = {}       # global name -> obj id
        self.gname = {}
        self.ginit = {}      # obj id -> initial Obj (shared)
        self.fncache = {}
        self.obls = []
        self.varnames = {}
        self.used = {}       # functions symbolically executed -> count
        self.stubs = {}      # callee name -> stub function name
        self.externs = dict(EXTERNS)
        self.assumed = set()
        self.reached = {}
        self.max_paths = self.opts.get('max_paths', 20000)
        self.npaths = 0
        self.nthrow = 0
        self.unsupported = []
        self.loopinfo = {}
        self.steps = 0
        self.deadline = None
        self.typeids = {}
        self.vars = {}
        self.notes = set()
        self.merge = False
        self.inmerge = 0
        self.cur_dst = None; self.cur_norm = None
        self.overflow = 'assume'
        self.summaries = 0

    def newtok(self):
        self.tokc += 1
        return self.tokc

    # ------------------------------------------------------------ globals
    def global_id(self, name):
        i = self.gobj.get(name)
        if i is None:
            g = self.m.globals.get(name)
            if g is not None and g[0] == 'alias':
                c = g[1]
                return None
            self.objc += 1
            i = self.objc
            self.gobj[name] = i; self.gname[i] = name
        return i

    def gval(self, name):
        """value of @name as an operand"""
        if name in self.m.funcs or name in self.m.decls:
            return Fn(name)
        g = self.m.globals.get(name)
        if g is not None and g[0] == 'alias':
            return self.const(g[1], 'ptr')
        return Ptr(self.global_id(name), 0)

    def const(self, c, ty):
        k = c[0]
        if k == 'c':
            return c[1]
        if k == 'g':
            return self.gval(c[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            t = self.m.resolve(ty)
            if isinstance(t, tuple) and t[0] == 'struct':
                return tuple(UNDEF for _ in t[1])
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'cgep':
            base = self.const(c[2][0][1], 'ptr')
            off = self.gepconst(c[1], [(t, self.const(v, t)) for t, v in c[2][1:]])
            if isinstance(base, Fn): raise Unsupported('gep on fn')
            return Ptr(base.obj, base.off + off)
        if k == 'ccast':
            v = self.const(c[3], c[2])
            if c[1] == 'ptrtoint':
                return self.p2i(v)
            if c[1] == 'inttoptr':
                return self.i2p(v)
            return v
        if k == 'cbin':
            a = self.const(c[3], c[2]); b = self.const(c[4], c[2])
            return wrap({'add': a + b, 'sub': a - b, 'mul': a * b}[c[1]], c[2][1])
        if k == 'agg':
            return tuple(self.const(v, t) for t, v in c[1])
        raise Unsupported('const %r' % (c,))

    def zero(self, ty):
        t = self.m.resolve(ty)
        if t == 'double' or t == 'float': return 0.0
        if t == 'ptr': return NULL
        if t[0] == 'i':
            return False if t[1] == 1 else 0
        if t[0] == 'struct':
            return tuple(self.zero(e) for e in t[1])
        if t[0] == 'arr':
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        raise Unsupported('zero %r' % (ty,))

    def gepconst(self, st, ops):
        m = self.m
        off = ops[0][1] * m.sizeof(st)
        t = st
        for (ty, v) in ops[1:]:
            t = m.resolve(t)
            if t[0] == 'struct':
                o, t = m.field_off(t, v)
                off += o
            else:
                t = t[2]
                off += v * m.sizeof(t)
        return off

    def initglobal(self, oid):
        o = self.ginit.get(oid)
        if o is not None: return o
        name = self.gname[oid]
        g = self.m.globals.get(name)
        if g is None:
            raise Unsupported('unknown global ' + name)
        o = Obj(oid, self.m.sizeof(g[1]), name, 0, default=UNDEF, alloc='global')
        o.const = g[3]
        if g[2] is not None:
            self.initcells(o, 0, g[1], g[2])
        else:
            o.default = 'ext'
        self.ginit[oid] = o
        return o

    def initcells(self, o, off, ty, c):
        t = self.m.resolve(ty)
        if c[0] == 'zero':
            if off == 0 and self.m.sizeof(t) == o.size:
                o.default = 0
            else:
                sz = self.m.sizeof(t)
                for k in range(0, sz):
                    o.cells[off + k] = (1, 0)
            return
        if c[0] == 'undef':
            return
        if c[0] == 'cstr':
            for k, b in enumerate(c[1]):
                o.cells[off + k] = (1, b - 256 if b > 127 else b)
            return
        if c[0] == 'agg':
            if t[0] == 'struct':
                for i, (et, ev) in enumerate(c[1]):
                    fo, ft = self.m.field_off(t, i)
                    self.initcells(o, off + fo, ft, ev)
            else:
                es = self.m.sizeof(t[2])
                for i, (et, ev) in enumerate(c[1]):
                    self.initcells(o, off + i * es, et, ev)
            return
        o.cells[off] = (self.m.sizeof(t), self.const(c, ty))

    # ------------------------------------------------------------ pointers
    def p2i(self, p):
        if isinstance(p, Fn):
            h = self.typeids.setdefault(('fn', p.name), len(self.typeids) + 1)
            return (1 << 62) + h * 16
        if isinstance(p, int) or isinstance(p, T): return p
        if p is UNDEF: return UNDEF
        return tm.iadd(p.obj << 40, p.off)

    def i2p(self, v):
        if isinstance(v, (Ptr, Fn)): return v
        if v is UNDEF: return v
        if isinstance(v, int):
            if v >= (1 << 62):
                for k, h in self.typeids.items():
                    if k[0] == 'fn' and (1 << 62) + h * 16 == v: return Fn(k[1])
            return Ptr(v >> 40, v & ((1 << 40) - 1)) if v >= 0 else Ptr(0, v)
        d = tm.idict(v)
        c = d.get((), 0)
        o = c >> 40
        r = c - (o << 40)
        if r > (1 << 39):
            o += 1; r -= 1 << 40
        d = dict(d); d[()] = r
        return Ptr(o, tm.ipoly(d))

    # ------------------------------------------------------------ memory
    def newobj(self, st, size, name, default=UNDEF, alloc='stack'):
        self.objc += 1
        o = Obj(self.objc, size, name, st.tok, default, alloc)
        st.mem[o.id] = o
        return Ptr(o.id, 0)

    def getobj(self, st, p):
        if type(p) is not Ptr:
            if isinstance(p, int): p = self.i2p(p)
            else: raise Unsupported('dereference of %r' % (p,))
        o = st.mem.get(p.obj)
        if o is None:
            if p.obj == 0:
                self.fail(st, 'mem', 'null or wild pointer dereference')
                raise PathEnd('memfail', 'null deref')
            if p.obj in self.gname:
                o = self.initglobal(p.obj)
                st.mem[p.obj] = o
            else:
                raise Unsupported('unknown object %r' % (p,))
        return o

    def wobj(self, st, p):
        o = self.getobj(st, p)
        if o.owner != st.tok:
            o = o.clone(st.tok)
            st.mem[o.id] = o
        return o

    def bounds(self, st, o, off, size, what):
        if o.freed:
            self.fail(st, 'mem', 'use after free (%s)' % what)
            raise PathEnd('memfail', 'use after free')
        if type(off) is int and type(o.size) is int:
            if off < 0 or off + size > o.size:
                self.fail(st, 'mem', 'out-of-bounds %s of object %s (offset %s, size %s)' % (what, o.name, off, o.size))
                raise PathEnd('memfail', 'oob')
            return
        c = tm.band(tm.ile(0, off), tm.ile(tm.iadd(off, size), o.size))
        if c is True: return
        self.oblige(st, 'mem', 'in-bounds %s of %s' % (what, o.name), c)

    def load(self, st, p, ty):
        o = self.getobj(st, p) if type(p) is not Ptr else (st.mem.get(p.obj) or self.getobj(st, p))
        off = p.off if type(p) is Ptr else self.i2p(p).off
        if type(off) is int and o.log is None:
            c = o.cells.get(off)
            if c is not None and not o.freed:
                sz = self.m.size_align(ty)[0]
                if c[0] == sz:
                    v = c[1]
                    tv = type(v)
                    if ty == 'double':
                        if tv is float or (tv is T and v.sort == 'R'): return v
                    elif ty == 'ptr':
                        if tv is Ptr or tv is Fn: return v
                    elif ty[0] == 'i':
                        if tv is int or (tv is T and v.sort == 'I'): return v
                    return self.coerce(v, ty, sz)
        return self.load_slow(st, o, off, ty)

    def coerce(self, v, ty, sz):
        if v is UNDEF: return UNDEF
        tv = type(v)
        if ty == 'ptr':
            if tv in (Ptr, Fn): return v
            if tv is float: v = struct.unpack('<q', struct.pack('<d', v))[0]
            if tv is int or (tv is T and v.sort == 'I'): return self.i2p(v)
        elif ty == 'double':
            if tv is float: return v
            if tv is T and v.sort == 'R': return v
            if tv is int: return struct.unpack('<d', struct.pack('<q', v))[0]
        elif ty == 'float':
            if tv is float: return v
        elif isinstance(ty, tuple) and ty[0] == 'i':
            if tv is bool: return v if ty[1] == 1 else int(v)
            if tv is int:
                return bool(v & 1) if ty[1] == 1 else v
            if tv is Ptr or tv is Fn: return self.p2i(v)
            if tv is float:
                return struct.unpack('<q', struct.pack('<d', v))[0] if sz == 8 else v
            if tv is T:
                if v.sort == 'I': return v
                if v.sort == 'B': return v if ty[1] == 1 else tm.ite(v, 1, 0)
                if v.sort == 'R': return v   # i64 view of a symbolic double: keep (pure moves only)
        elif isinstance(ty, tuple) and ty[0] in ('struct', 'named', 'arr'):
            return v
        raise Unsupported('type punning %r as %r' % (v, ty))

    def load_slow(self, st, o, off, ty):
        rt = self.m.resolve(ty)
        if isinstance(rt, tuple) and rt[0] in ('struct', 'arr'):
            out = []
            if rt[0] == 'struct':
                for i, e in enumerate(rt[1]):
                    fo, ft = self.m.field_off(rt, i)
                    out.append(self.load(st, Ptr(o.id, off + fo), ft))
            else:
                es = self.m.sizeof(rt[2])
                for i in range(rt[1]):
                    out.append(self.load(st, Ptr(o.id, off + i * es), rt[2]))
            return tuple(out)
        sz = self.m.sizeof(ty)
        self.bounds(st, o, off, sz, 'read')
        if o.log is not None or type(off) is not int:
            return self.load_sym(st, o, off, ty, sz)
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return self.coerce(c[1], ty, sz)
        bs = self.bytes_of(o, off, sz)
        if all(b is UNDEF for b in bs):
            return UNDEF
        if any(b is UNDEF for b in bs):
            # partially initialised (e.g. padding copied through wide moves)
            bs = [0 if b is UNDEF else b for b in bs]
            self.notes.add('partially-uninitialised wide read')
        if any(not isinstance(b, int) for b in bs):
            # wide cell containing narrower symbolic pieces
            if isinstance(ty, tuple) and ty[0] == 'i' and ty[1] == 8 and isinstance(bs[0], T):
                return bs[0]
            if isinstance(ty, tuple) and ty[0] == 'i' and ty[1] in (16, 32, 64) and all(isinstance(b, int) or (isinstance(b, T) and b.sort == 'I') for b in bs):
                # an integer made of symbolic bytes: left unspecified (over-approximation)
                nm = self.fresh('bytes'); h = 1 << (ty[1] - 1)
                at = tm.mk('iv', (nm,), 'I'); at.iv = (-h, h - 1)
                t = tm.iatom(at); t.iv = (-h, h - 1)
                self.notes.add('integer read over symbolic bytes left unspecified')
                return t
            raise Unsupported('byte-level access to symbolic data')
        raw = bytes(bs)
        if ty == 'double': return struct.unpack('<d', raw)[0]
        if ty == 'float': return struct.unpack('<f', raw)[0]
        v = int.from_bytes(raw, 'little', signed=True)
        if ty == 'ptr': return self.i2p(v)
        if ty[1] == 1: return bool(v & 1)
        return v

    def bytes_of(self, o, off, sz):
        out = []
        k = 0
        while k < sz:
            a = off + k
            c = o.cells.get(a)
            base = a
            if c is None:
                for d in range(1, 16):
                    c2 = o.cells.get(a - d)
                    if c2 is not None:
                        if c2[0] > d:
                            c = c2; base = a - d
                        break
            if c is None:
                dv = o.default
                if dv is UNDEF or dv == 'ext':
                    out.append(UNDEF)
                elif isinstance(dv, int):
                    out.append(dv & 255)
                else:
                    raise Unsupported('byte read of symbolic array')
                k += 1
                continue
            v = c[1]; csz = c[0]
            if v is UNDEF:
                bb = [UNDEF] * csz
            elif type(v) is bool or type(v) is int:
                bb = list((int(v) & ((1 << (8 * csz)) - 1)).to_bytes(csz, 'little'))
            elif type(v) is float:
                bb = list(struct.pack('<d' if csz == 8 else '<f', v))
            elif type(v) in (Ptr, Fn):
                iv = self.p2i(v)
                if not isinstance(iv, int): raise Unsupported('bytes of symbolic pointer')
                bb = list((iv & ((1 << 64) - 1)).to_bytes(8, 'little'))
            elif csz == 1:
                bb = [v]
            else:
                raise Unsupported('bytes of symbolic value')
            while k < sz and off + k < base + csz:
                out.append(bb[off + k - base])
                k += 1
        return out

    def load_sym(self, st, o, off, ty, sz):
        """load at possibly symbolic offset / from logged object"""
        # 1. log of writes
        if o.log is not None:
            return self.load_log(st, o, off, ty, sz, len(o.log))
        # symbolic offset into a concrete table
        return self.load_base(st, o, off, ty, sz)

    def load_base(self, st, o, off, ty, sz):
        if isinstance(o.default, tuple) and o.default[0] == 'array':
            # symbolic array: uninterpreted function of the element index
            _, name, esz, sort = o.default
            if type(off) is int:
                c = o.cells.get(off)
                if c is not None and c[0] == sz: return self.coerce(c[1], ty, sz)
            if sz != esz: raise Unsupported('element size mismatch on symbolic array')
            if o.cells and type(off) is not int:
                raise Unsupported('mixed cells')
            idx = tm.ifloordiv(off, esz)
            if sort == 'R':
                return tm.mk('sel', (name, idx if isinstance(idx, T) else idx), 'R')
            return tm.iatom(tm.mk('sel', (name, idx), 'I'))
        if type(off) is int:
            c = o.cells.get(off)
            if c is not None and c[0] == sz: return self.coerce(c[1], ty, sz)
            if o.default == 0: return self.zero(ty)
            return UNDEF
        # concrete table with symbolic index
        if type(o.size) is not int or o.size > 8 * 4096:
            raise Unsupported('symbolic offset into object %s' % o.name)
        lo, hi = tm.interval(off)
        lo = max(0, lo if lo is not None else 0)
        hi = min(o.size - sz, hi if hi is not None else o.size - sz)
        d = tm.idict(off)
        g = 0
        for mm, cc in d.items():
            if mm != (): g = math.gcd(g, cc)
        k0 = d.get((), 0)
        res = None
        cands = [x for x in range(lo, hi + 1) if (x - k0) % (g or 1) == 0]
        if len(cands) > 512: raise Unsupported('too many candidate offsets')
        for x in cands:
            v = self.load(st, Ptr(o.id, x), ty)
            if v is UNDEF: continue
            res = v if res is None else self.ite_val(tm.ieq(off, x), v, res)
        if res is None: return UNDEF
        return res

    def load_log(self, st, o, off, ty, sz, n):
        """walk the write log backwards from entry n-1"""
        i = n - 1
        while i >= 0:
            e = o.log[i]
            if e[0] == 'w':
                _, woff, wsz, wv = e
                d = tm.isub(off, woff)
                if not isinstance(d, T):
                    if d == 0 and wsz == sz:
                        return self.coerce(wv, ty, sz)
                    if d >= wsz or d <= -sz:
                        i -= 1; continue
                    raise Unsupported('overlapping symbolic access')
                r = self.must(st, tm.ieq(d, 0))
                if r is True and wsz == sz: return self.coerce(wv, ty, sz)
                disj = tm.bor(tm.ile(wsz, d), tm.ile(d, -sz))
                if self.must(st, disj) is True:
                    i -= 1; continue
                # undetermined: aligned equal-or-disjoint
                if wsz == sz and self.must(st, tm.bor(tm.ieq(d, 0), disj)) is True:
                    rest = self.load_log(st, o, off, ty, sz, i)
                    return self.ite_val(tm.ieq(d, 0), self.coerce(wv, ty, sz), rest)
                raise Unsupported('cannot resolve symbolic aliasing in %s' % o.name)
            elif e[0] == 'layer':
                lay = e[1]
                r = lay.lookup(self, st, o, off, ty, sz)
                if r is None:
                    i -= 1; continue
                hit, val = r
                if hit is True: return val
                rest = self.load_log(st, o, off, ty, sz, i)
                return self.ite_val(hit, val, rest)
            i -= 1
        return self.load_base(st, o, off, ty, sz)

    def ite_val(self, c, a, b):
        if not isinstance(c, T): return a if c else b
        if a is b: return a
        if a is UNDEF: return b if False else self.undef_mix(c, a, b)
        if b is UNDEF: return self.undef_mix(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, tm.ite(c, a.off, b.off))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.ite_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name: return a
            raise Unsupported('ite of pointers')
        if isinstance(a, float) and isinstance(b, float):
            if a == b: return a
            if math.isnan(a) or math.isinf(a) or math.isnan(b) or math.isinf(b):
                raise Unsupported('ite of non-finite')
        if isinstance(a, bool) and not isinstance(b, bool) and isinstance(b, int): a = int(a)
        if isinstance(b, bool) and not isinstance(a, bool) and isinstance(a, int): b = int(b)
        return tm.ite(c, a, b)

    def undef_mix(self, c, a, b):
        if a is UNDEF and b is UNDEF: return UNDEF
        self.notes.add('undef in merge')
        o = b if a is UNDEF else a
        if isinstance(o, float) or (isinstance(o, T) and o.sort == 'R'):
            u = tm.rvar(self.fresh('undef'))
        elif isinstance(o, bool) or (isinstance(o, T) and o.sort == 'B'):
            u = tm.mk('bv', (self.fresh('undef'),), 'B')
        elif isinstance(o, int) or (isinstance(o, T) and o.sort == 'I'):
            u = tm.ivar(self.fresh('undef'))
        else:
            raise Unsupported('undef pointer merge')
        return self.ite_val(c, u if a is UNDEF else a, u if b is UNDEF else b)

    def fresh(self, base):
        n = self.varnames.get(base, 0)
        self.varnames[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def store(self, st, p, v, ty):
        if type(p) is not Ptr:
            p = self.i2p(p)
            if type(p) is not Ptr: raise Unsupported('store to %r' % (p,))
        o = st.mem.get(p.obj)
        if o is None or o.owner != st.tok:
            o = self.wobj(st, p)
        if type(v) is tuple:
            rt = self.m.resolve(ty)
            if rt[0] == 'struct':
                for i, e in enumerate(rt[1]):
                    fo, ft = self.m.field_off(rt, i)
                    self.store(st, Ptr(p.obj, tm.iadd(p.off, fo)), v[i], ft)
            else:
                es = self.m.sizeof(rt[2])
                for i in range(rt[1]):
                    self.store(st, Ptr(p.obj, tm.iadd(p.off, i * es)), v[i], rt[2])
            return
        sz = self.m.size_align(ty)[0]
        off = p.off
        if o.freed or type(off) is not int or type(o.size) is not int or off < 0 or off + sz > o.size:
            self.bounds(st, o, off, sz, 'write')
        if st.info.get('rec') is not None:
            st.info['rec'].append((o.id, off, sz, v))
        if o.log is None and type(off) is int and not (isinstance(o.default, tuple) and o.default[0] == 'array' and False):
            self.putcell(o, off, sz, v)
            return
        if o.log is None:
            if o.cells and not (isinstance(o.default, tuple)):
                # concrete table, symbolic index
                if type(o.size) is int and o.size <= 4096 * 8:
                    self.store_table(st, o, off, sz, v, ty)
                    return
            o.log = [('w', a, c[0], c[1]) for a, c in o.cells.items()]
            o.cells = {}
        o.log.append(('w', off, sz, v))

    def store_table(self, st, o, off, sz, v, ty):
        hit = False
        for a in list(o.cells.keys()):
            c = o.cells[a]
            eq = tm.ieq(off, a)
            if eq is False: continue
            if c[0] != sz: raise Unsupported('symbolic store size mismatch')
            o.cells[a] = (sz, self.ite_val(eq, v, c[1]))
        # positions without a cell
        if isinstance(o.size, int):
            d = tm.idict(off); g = 0
            for mm, cc in d.items():
                if mm != (): g = math.gcd(g, cc)
            k0 = d.get((), 0)
            for x in range(0, o.size - sz + 1):
                if (x - k0) % (g or 1) == 0 and x not in o.cells:
                    eq = tm.ieq(off, x)
                    if eq is False: continue
                    old = self.load(st, Ptr(o.id, x), ty)
                    o.cells[x] = (sz, self.ite_val(eq, v, old))

    def putcell(self, o, off, sz, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == sz:
            cells[off] = (sz, v)
            return
        # clear overlaps
        for d in range(-15, sz):
            a = off + d
            c = cells.get(a)
            if c is None: continue
            if a + c[0] <= off: continue
            if a >= off and a + c[0] <= off + sz:
                del cells[a]
                continue
            # partial overlap: split old into bytes
            try: bs = self.bytes_of(o, a, c[0])
            except Unsupported: bs = [UNDEF] * c[0]     # what is left of a symbolic value: unusable
            del cells[a]
            for k in range(c[0]):
                if not (off <= a + k < off + sz):
                    b = bs[k]
                    if isinstance(b, int): b = b - 256 if b > 127 else b
                    cells[a + k] = (1, b)
        cells[off] = (sz, v)

    def memcpy(self, st, d, s, n):
        if isinstance(n, T):
            return self.memcpy_sym(st, d, s, n)
        if n == 0: return
        so = self.getobj(st, s)
        do = self.wobj(st, d)
        so = self.getobj(st, s)
        if so.log is not None or do.log is not None or type(s.off) is not int or type(d.off) is not int:
            return self.memcpy_sym(st, d, s, n)
        self.bounds(st, so, s.off, n, 'read(memcpy)')
        self.bounds(st, do, d.off, n, 'write(memcpy)')
        a = s.off; end = a + n
        items = []
        if n > 4 * len(so.cells):
            keys = sorted(k for k in so.cells if a <= k < end)
        else:
            keys = None
        # default
        pos = a
        cells = so.cells
        while pos < end:
            c = cells.get(pos)
            if c is not None and pos + c[0] <= end:
                items.append((pos - a, c[0], c[1])); pos += c[0]
                continue
            # gap or partial
            nxt = pos + 1
            b = self.bytes_of(so, pos, 1)[0] if not (isinstance(so.default, tuple)) else None
            if isinstance(so.default, tuple):
                esz = so.default[2]
                v = self.load_base(st, so, pos, 'double' if so.default[3] == 'R' else ('i', esz * 8), esz)
                items.append((pos - a, esz, v)); pos += esz
                continue
            if isinstance(b, int): b = b - 256 if b > 127 else b
            items.append((pos - a, 1, b))
            pos = nxt
        rec = st.info.get('rec')
        for (ro, sz, v) in items:
            if rec is not None: rec.append((do.id, d.off + ro, sz, v))
            self.putcell(do, d.off + ro, sz, v)

    def memcpy_sym(self, st, d, s, n):
        so = self.getobj(st, s)
        do = self.wobj(st, d)
        self.bounds(st, so, s.off, n, 'read(memcpy)')
        self.bounds(st, do, d.off, n, 'write(memcpy)')
        # element-wise copy layer of 8-byte elements
        esz = 8
        if isinstance(so.default, tuple): esz = so.default[2]
        if do.log is None:
            do.log = [('w', a, c[0], c[1]) for a, c in do.cells.items()]
            do.cells = {}
        src = so if so is not do else so.clone(-1)
        do.log.append(('layer', CopyLayer(d.off, src.clone(-1), s.off, n, esz)))

    def memset(self, st, d, b, n):
        if isinstance(n, T):
            do = self.wobj(st, d)
            self.bounds(st, do, d.off, n, 'write(memset)')
            if do.log is None:
                do.log = [('w', a, c[0], c[1]) for a, c in do.cells.items()]
                do.cells = {}
            do.log.append(('layer', FillLayer(d.off, n, b)))
            return
        if n == 0: return
        do = self.wobj(st, d)
        self.bounds(st, do, d.off, n, 'write(memset)')
        if do.log is not None or type(d.off) is not int:
            do.log = do.log or []
            do.log.append(('layer', FillLayer(d.off, n, b)))
            return
        if st.info.get('rec') is not None:
            st.info['rec'].append((do.id, d.off, n, b))
        if d.off == 0 and n == do.size and isinstance(b, int):
            do.cells = {}
            do.default = b & 255
            return
        if not isinstance(b, int): raise Unsupported('memset with symbolic byte')
        lo = d.off; hi = lo + n
        for a in [a for a in do.cells if lo - 15 <= a < hi]:
            c = do.cells[a]
            if a >= lo and a + c[0] <= hi:
                del do.cells[a]
        k = lo
        if b == 0:
            while k < hi:
                if k % 8 == 0 and k + 8 <= hi:
                    self.putcell(do, k, 8, 0); k += 8
                elif k % 4 == 0 and k + 4 <= hi:
                    self.putcell(do, k, 4, 0); k += 4
                else:
                    self.putcell(do, k, 1, 0); k += 1
        else:
            bb = wrap(b, 8)
            while k < hi:
                self.putcell(do, k, 1, bb); k += 1

    # ------------------------------------------------------------ obligations
    def fail(self, st, kind, label):
        self.oblige(st, kind, label, False)

    def where(self, st):
        return [f.fn.name for f in st.frames]

    def oblige(self, st, kind, label, cond, data=None):
        if cond is True: 
            self.obls.append(dict(kind=kind, label=label, pc=None, cond=True, where=None, data=data))
            return
        self.obls.append(dict(kind=kind, label=label, pc=list(st.pc), cond=cond, where=self.where(st)[-3:], data=data))
        if isinstance(cond, T):
            self.assume(st, cond)

    def assume(self, st, c):
        if c is True or c is tm.TRUE: return
        if not isinstance(c, T):
            raise PathEnd('assume')
        st.pc.append(c)

    def must(self, st, c):
        """True if pc |- c ; None otherwise"""
        if not isinstance(c, T): return bool(c)
        r = self.solver.entails(st.pc, c)
        return r

    def feasible(self, st, c):
        return self.solver.feasible(st.pc, c)

    # ------------------------------------------------------------ compile
    def compile(self, f):
        if f.code is not None: return f
        if f.blocks is None:
            IR.parse_body(self.m, f)
        slots = {}
        template = []
        def slot(name):
            i = slots.get(name)
            if i is None:
                i = len(template); slots[name] = i; template.append(UNDEF)
            return i
        cpool = {}
        def opnd(v, ty):
            if v[0] == 'l': return slot(v[1])
            try:
                key = (repr(v), ty)
            except Exception:
                key = None
            i = cpool.get(key)
            if i is None:
                i = len(template)
                template.append(self.const(v, ty))
                cpool[key] = i
            return i
        for t, nm in f.params: slot(nm)
        code = {}
        for lab in f.order:
            phis = []; body = []; term = None
            for ins in f.blocks[lab]:
                op = ins[0]
                if op == 'phi':
                    phis.append((slot(ins[1]), {l: opnd(v, ins[2]) for v, l in ins[3]}))
                elif op in ('br', 'cbr', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                    if op == 'br': term = ('br', ins[1])
                    elif op == 'cbr': term = ('cbr', opnd(ins[1], ('i', 1)), ins[2], ins[3])
                    elif op == 'switch': term = ('switch', opnd(ins[2], ins[1]), ins[3], ins[4], ins[1][1])
                    elif op == 'ret': term = ('ret', None if ins[2] is None else opnd(ins[2], ins[1]))
                    elif op == 'invoke':
                        body.append(self.c_call(ins, slot, opnd, f))
                        term = ('invoked',)
                    else: term = (op,)
                else:
                    body.append(self.c_ins(ins, slot, opnd, f))
            code[lab] = (phis, body, term)
        f.code = code
        f.nslots = len(template)
        f.info = dict(template=template, slots=slots, params=[slots[nm] for t, nm in f.params], entry=f.order[0])
        return f

    def c_ins(self, ins, slot, opnd, f):
        op = ins[0]
        ex = self
        m = self.m
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            d = slot(ins[1]); a = opnd(ins[3], ins[2]); b = opnd(ins[4], ins[2])
            if ins[2] != 'double':
                def g(st, env): raise Unsupported('non-double fp')
                return g
            sym = {'fadd': tm.radd, 'fsub': tm.rsub, 'fmul': tm.rmul, 'fdiv': tm.rdiv}.get(op)
            if op == 'fadd':
                def g(st, env):
                    x = env[a]; y = env[b]
                    if type(x) is float and type(y) is float: env[d] = x + y
                    else: env[d] = ex.rop(tm.radd, x, y)
            elif op == 'fsub':
                def g(st, env):
                    x = env[a]; y = env[b]
                    if type(x) is float and type(y) is float: env[d] = x - y
                    else: env[d] = ex.rop(tm.rsub, x, y)
            elif op == 'fmul':
                def g(st, env):
                    x = env[a]; y = env[b]
                    if type(x) is float and type(y) is float: env[d] = x * y
                    elif (x is UNDEF and y == 0.0) or (y is UNDEF and x == 0.0): env[d] = UNDEF
                    else: env[d] = ex.rop(tm.rmul, x, y)
            elif op == 'fdiv':
                def g(st, env):
                    x = env[a]; y = env[b]
                    if type(x) is float and type(y) is float:
                        if y == 0.0:
                            env[d] = float('nan') if (x == 0.0 or x != x) else math.copysign(math.inf, x) * math.copysign(1.0, y)
                        else: env[d] = x / y
                    else:
                        env[d] = ex.fdiv(st, x, y)
            else:
                def g(st, env):
                    x = env[a]; y = env[b]
                    if type(x) is float and type(y) is float: env[d] = math.fmod(x, y)
                    else: raise Unsupported('frem')
            return g
        if op == 'fneg':
            d = slot(ins[1]); a = opnd(ins[3], ins[2])
            def g(st, env):
                x = env[a]
                env[d] = -x if type(x) is float else ex.rop1(tm.rneg, x)
            return g
        if op in ('add', 'sub', 'mul'):
            d = slot(ins[1]); a = opnd(ins[3], ins[2]); b = opnd(ins[4], ins[2]); n = ins[2][1]
            nsw = 'nsw' in ins[5]
            nuw = 'nuw' in ins[5]
            lo = -(1 << (n - 1)); hi = (1 << (n - 1)) - 1
            sf = {'add': tm.iadd, 'sub': tm.isub, 'mul': tm.imul}[op]
            import operator
            pf = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul}[op]
            def g(st, env):
                x = env[a]; y = env[b]
                if type(x) is int and type(y) is int:
                    v = pf(x, y)
                    if v < lo or v > hi:
                        if nsw: ex.fail(st, 'ovf', 'signed overflow in %s' % f.name)
                        v = wrap(v, n)
                    env[d] = v
                else:
                    env[d] = ex.iarith(st, sf, x, y, n, nsw)
            return g
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            d = slot(ins[1]); a = opnd(ins[3], ins[2]); b = opnd(ins[4], ins[2]); n = ins[2][1]
            def g(st, env):
                env[d] = ex.idivrem(st, op, env[a], env[b], n)
            return g
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            d = slot(ins[1]); a = opnd(ins[3], ins[2]); b = opnd(ins[4], ins[2]); n = ins[2][1]
            def g(st, env):
                env[d] = ex.bitop(st, op, env[a], env[b], n)
            return g
        if op == 'icmp':
            d = slot(ins[1]); pr = ins[2]; ty = ins[3]; a = opnd(ins[4], ty); b = opnd(ins[5], ty)
            import operator
            if ty == 'ptr':
                def g(st, env): env[d] = ex.pcmp(st, pr, env[a], env[b])
                return g
            n = ty[1]
            if pr in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
                pf = {'eq': operator.eq, 'ne': operator.ne, 'slt': operator.lt, 'sle': operator.le, 'sgt': operator.gt, 'sge': operator.ge}[pr]
                def g(st, env):
                    x = env[a]; y = env[b]
                    if type(x) is int and type(y) is int: env[d] = pf(x, y)
                    else: env[d] = ex.icmp(st, pr, x, y, n)
            else:
                def g(st, env): env[d] = ex.icmp(st, pr, env[a], env[b], n)
            return g
        if op == 'fcmp':
            d = slot(ins[1]); pr = ins[2]; a = opnd(ins[4], ins[3]); b = opnd(ins[5], ins[3])
            def g(st, env): env[d] = ex.fcmp(pr, env[a], env[b])
            return g
        if op == 'cast':
            d = slot(ins[1]); k = ins[2]; t1 = ins[3]; t2 = ins[5]; a = opnd(ins[4], t1)
            if k == 'sext':
                if t1[1] == 1:
                    def g(st, env):
                        x = env[a]
                        env[d] = tm.ite(x, -1, 0) if type(x) is T else (x if x is UNDEF else -int(x))
                else:
                    def g(st, env): env[d] = env[a]
                return g
            def g(st, env): env[d] = ex.cast(st, k, env[a], t1, t2)
            return g
        if op == 'select':
            d = slot(ins[1]); c = opnd(ins[2], ('i', 1)); a = opnd(ins[4], ins[3]); b = opnd(ins[5], ins[3])
            def g(st, env):
                x = env[c]
                if type(x) is bool: env[d] = env[a] if x else env[b]
                elif x is UNDEF: env[d] = UNDEF
                else:
                    return ex.select(st, env, d, x, env[a], env[b])
            return g
        if op == 'load':
            d = slot(ins[1]); ty = ins[2]; a = opnd(ins[3], 'ptr')
            load = self.load
            def g(st, env): env[d] = load(st, env[a], ty)
            return g
        if op == 'store':
            ty = ins[1]; v = opnd(ins[2], ty); a = opnd(ins[3], 'ptr')
            store = self.store
            def g(st, env): store(st, env[a], env[v], ty)
            return g
        if op == 'gep':
            d = slot(ins[1]); stt = ins[2]; base = opnd(ins[3][0][1], 'ptr')
            k = 0
            dyn = []
            t = stt
            first = True
            for (ty, v) in ins[3][1:]:
                if first:
                    es = m.sizeof(stt); first = False
                    if v[0] == 'c': k += v[1] * es
                    else: dyn.append((opnd(v, ty), es))
                    continue
                t = m.resolve(t)
                if t[0] == 'struct':
                    o, t = m.field_off(t, v[1]); k += o
                else:
                    t = t[2]; es = m.sizeof(t)
                    if v[0] == 'c': k += v[1] * es
                    else: dyn.append((opnd(v, ty), es))
            if not dyn:
                def g(st, env):
                    p = env[base]
                    if type(p) is not Ptr: p = ex.asptr(p)
                    o = p.off
                    env[d] = Ptr(p.obj, o + k if type(o) is int else tm.iadd(o, k))
            elif len(dyn) == 1:
                (ix, es), = dyn
                def g(st, env):
                    p = env[base]
                    if type(p) is not Ptr: p = ex.asptr(p)
                    o = p.off; x = env[ix]
                    if type(o) is int and type(x) is int:
                        env[d] = Ptr(p.obj, o + k + x * es)
                    else:
                        if x is UNDEF: raise Unsupported('undef index')
                        env[d] = Ptr(p.obj, tm.iadd(tm.iadd(o, k), tm.imulc(x, es)))
            else:
                def g(st, env):
                    p = env[base]
                    if type(p) is not Ptr: p = ex.asptr(p)
                    o = tm.iadd(p.off, k)
                    for ix, es in dyn:
                        o = tm.iadd(o, tm.imulc(env[ix], es))
                    env[d] = Ptr(p.obj, o)
            return g
        if op == 'alloca':
            d = slot(ins[1]); ty = ins[2]; nn = opnd(ins[3], ('i', 32)); es = m.sizeof(ty); nm = '%s:%s' % (f.name[:40], ins[1])
            def g(st, env):
                n = env[nn]
                env[d] = ex.newobj(st, tm.imulc(n, es) if isinstance(n, T) else n * es, nm)
            return g
        if op == 'call':
            return self.c_call(ins, slot, opnd, f)
        if op == 'landingpad':
            d = slot(ins[1]); clauses = ins[3]
            def g(st, env):
                env[d] = (Ptr(st.excobj, 0) if st.excobj else NULL, st.cur_exc[1])
            return g
        if op == 'extractvalue':
            d = slot(ins[1]); a = opnd(ins[3], ins[2]); ix = ins[4]
            def g(st, env):
                v = env[a]
                for i in ix: v = v[i] if type(v) is tuple else UNDEF
                env[d] = v
            return g
        if op == 'insertvalue':
            d = slot(ins[1]); a = opnd(ins[3], ins[2]); b = opnd(ins[5], ins[4]); ix = ins[6]
            nst = m.resolve(ins[2])
            cnt = len(nst[1]) if nst[0] == 'struct' else nst[1]
            def ins1(v, ix, x):
                if not ix: return x
                l = list(v) if type(v) is tuple else [UNDEF] * cnt
                l[ix[0]] = ins1(l[ix[0]], ix[1:], x)
                return tuple(l)
            def g(st, env): env[d] = ins1(env[a], ix, env[b])
            return g
        if op == 'freeze':
            d = slot(ins[1]); a = opnd(ins[3], ins[2])
            def g(st, env): env[d] = env[a]
            return g
        if op in ('unsupported', 'asm'):
            def g(st, env): raise Unsupported('instruction ' + str(ins[2:3]))
            return g
        raise Unsupported('instruction ' + op)

    def c_call(self, ins, slot, opnd, f):
        op, dst, ty, cal, args, norm, unw = ins
        d = slot(dst) if dst is not None else None
        c = opnd(cal, 'ptr')
        al = [opnd(v, t) if t != 'metadata' else None for t, v in args]
        ats = [t for t, v in args]
        ex = self
        nm0 = cal[1] if cal[0] == 'g' else None
        if nm0 is not None and (nm0.startswith('llvm.lifetime') or nm0.startswith('llvm.dbg') or nm0.startswith('llvm.assume')
                or nm0.startswith('llvm.experimental.noalias') or nm0.startswith('llvm.invariant') or nm0.startswith('llvm.stack')
                or nm0 in ('llvm.donothing',)):
            def g(st, env):
                if d is not None: env[d] = NULL
            return g
        def g(st, env):
            fn = env[c]
            if type(fn) is not Fn:
                if isinstance(fn, (int, Ptr)): raise Unsupported('call through non-function pointer %r' % (fn,))
                raise Unsupported('indirect call %r' % (fn,))
            return ex.call(st, env, fn.name, [env[i] if i is not None else None for i in al], ats, d, norm, unw, ty)
        return g

    def asptr(self, p):
        if type(p) is Fn: raise Unsupported('fn ptr arithmetic')
        if p is UNDEF: raise Unsupported('undef pointer')
        return self.i2p(p)

    # ------------------------------------------------------------ scalar ops
    def rop(self, fn, x, y):
        if x is UNDEF or y is UNDEF:
            x = self.undefr(x); y = self.undefr(y)
        if (type(x) is float and (x != x or math.isinf(x))) or (type(y) is float and (y != y or math.isinf(y))):
            if (type(x) is float and x != x) or (type(y) is float and y != y): return float('nan')
            raise Unsupported('infinite operand')
        return fn(x, y)

    def undefr(self, x):
        if x is UNDEF:
            self.notes.add('uninitialised double used')
            return tm.rvar(self.fresh('undef'))
        return x

    def rop1(self, fn, x):
        return fn(self.undefr(x))

    def fdiv(self, st, x, y):
        x = self.undefr(x); y = self.undefr(y)
        if type(y) is float and y == 0.0:
            if getattr(self, 'ieee', False): return UNDEF      # infinite or NaN: usable only where its value does not matter
            self.fail(st, 'div', 'division by zero')
            raise PathEnd('divzero')
        if type(x) is float and (x != x): return float('nan')
        y = tm.rconst(y)
        if y.op != 'rc':
            self.divs(st, y)
        return tm.rdiv(x, y)

    def divs(self, st, y):
        ds = st.info.get('divs')
        if ds is None: ds = ()
        st.info['divs'] = ds + (y,) if y not in ds else ds

    def inrange(self, v, n):
        if not isinstance(v, T): return -(1 << (n-1)) <= v < (1 << (n-1))
        lo, hi = tm.interval(v)
        return lo is not None and hi is not None and lo >= -(1 << (n-1)) and hi < (1 << (n-1))

    def iarith(self, st, fn, x, y, n, nsw):
        if x is UNDEF or y is UNDEF: 
            return UNDEF
        if type(x) in (Ptr, Fn): x = self.p2i(x)
        if type(y) in (Ptr, Fn): y = self.p2i(y)
        if type(x) is bool: x = int(x)
        if type(y) is bool: y = int(y)
        if (type(x) is T and x.sort != 'I') or (type(y) is T and y.sort != 'I'):
            if n == 1 and fn in (tm.iadd, tm.isub):
                return tm.bnot(tm.beq(x, y))
            raise Unsupported('int arithmetic on non-int term')
        v = fn(x, y)
        if not isinstance(v, T): 
            return wrap(v, n)
        if n == 64 or self.inrange(v, n):
            return v
        if nsw:
            if self.overflow == 'check':
                self.oblige(st, 'ovf', 'no signed overflow', tm.band(tm.ile(-(1 << (n-1)), v), tm.ilt(v, 1 << (n-1))))
            else:
                self.assumed.add('no signed integer overflow (nsw arithmetic treated as mathematical)')
            return v
        # wrapping arithmetic: decide with solver, else model the wrap
        ok = tm.band(tm.ile(-(1 << (n-1)), v), tm.ilt(v, 1 << (n-1)))
        if self.must(st, ok) is True: return v
        w = tm.imod(tm.iadd(v, 1 << (n-1)), 1 << n)
        return tm.isub(w, 1 << (n-1))

    def u(self, st, x, n):
        """unsigned value of signed-represented x"""
        if not isinstance(x, T):
            return x & ((1 << n) - 1)
        lo, hi = tm.interval(x)
        if lo is not None and lo >= 0: return x
        if hi is not None and hi < 0: return tm.iadd(x, 1 << n)
        if self.must(st, tm.ile(0, x)) is True: return x
        return tm.ite(tm.ilt(x, 0), tm.iadd(x, 1 << n), x)

    def idivrem(self, st, op, x, y, n):
        if x is UNDEF or y is UNDEF: return UNDEF
        if type(x) in (Ptr, Fn): x = self.p2i(x)
        if not isinstance(x, T) and not isinstance(y, T):
            if y == 0:
                self.fail(st, 'div', 'integer division by zero')
                raise PathEnd('divzero')
            if op == 'sdiv':
                q = abs(x) // abs(y)
                return wrap(q if (x < 0) == (y < 0) else -q, n)
            if op == 'srem':
                r = abs(x) % abs(y)
                return -r if x < 0 else r
            x &= (1 << n) - 1; y &= (1 << n) - 1
            return wrap(x // y if op == 'udiv' else x % y, n)
        if isinstance(y, T):
            nz = tm.bnot(tm.ieq(y, 0))
            if nz is not True and self.must(st, nz) is not True:
                self.oblige(st, 'div', 'integer divisor non-zero', nz)
        if op in ('udiv', 'urem'):
            x = self.u(st, x, n); y = self.u(st, y, n)
            if op == 'udiv': return tm.ifloordiv(x, y)
            return tm.imod(x, y)
        # signed, truncating
        def nonneg(v):
            if not isinstance(v, T): return v >= 0
            lo, hi = tm.interval(v)
            if lo is not None and lo >= 0: return True
            return self.must(st, tm.ile(0, v)) is True
        if not isinstance(y, T) and y < 0:
            q = self.idivrem(st, 'sdiv', x, -y, n)
            if op == 'sdiv': return tm.ineg(q)
            return tm.isub(x, tm.imulc(q, -y))
        if isinstance(y, T) and not nonneg(y):
            raise Unsupported('signed division by possibly negative symbol')
        d = tm.idict(x)
        if not isinstance(y, T) and all(c % y == 0 for c in d.values()):
            q = tm.ipoly({mm: c // y for mm, c in d.items()})
        elif nonneg(x):
            q = tm.ifloordiv(x, y)
        elif isinstance(x, T) and self.must(st, tm.ile(x, 0)) is True:
            q = tm.ineg(tm.ifloordiv(tm.ineg(x), y))
        else:
            q = tm.ite(tm.ile(0, x), tm.ifloordiv(x, y), tm.ineg(tm.ifloordiv(tm.ineg(x), y)))
        if op == 'sdiv': return q
        return tm.isub(x, tm.imul(q, y))

    def bitop(self, st, op, x, y, n):
        if type(x) in (Ptr, Fn): x = self.p2i(x)
        if type(y) in (Ptr, Fn): y = self.p2i(y)
        if n == 1:
            if x is UNDEF or y is UNDEF: return UNDEF
            x = bool(x) if isinstance(x, int) else x
            y = bool(y) if isinstance(y, int) else y
            if op == 'and': return tm.band(x, y)
            if op == 'or': return tm.bor(x, y)
            if op == 'xor': return tm.bnot(tm.beq(x, y))
            raise Unsupported('i1 ' + op)
        if x is UNDEF or y is UNDEF:
            # words of a fresh vector<bool>: libstdc++ masks single bits into them
            nm = st.frames[-1].fn.name
            if not ('_Bit_reference' in nm or 'fill_bvector' in nm): return UNDEF
            if x is UNDEF: x = 0
            if y is UNDEF: y = 0
        if type(x) is bool: x = int(x)
        if type(y) is bool: y = int(y)
        M = (1 << n) - 1
        if not isinstance(x, T) and not isinstance(y, T):
            if op == 'and': return wrap(x & y, n)
            if op == 'or': return wrap(x | y, n)
            if op == 'xor': return wrap(x ^ y, n)
            if op == 'shl': return wrap(x << (y & M), n) if (y & M) < n else 0
            if op == 'lshr': return wrap((x & M) >> y, n)
            if op == 'ashr': return x >> y
        if not isinstance(y, T):
            if op == 'shl': return self.iarith(st, tm.imul, x, 1 << y, n, n == 64)
            if op == 'lshr':
                return tm.ifloordiv(self.u(st, x, n), 1 << y)
            if op == 'ashr': return tm.ifloordiv(x, 1 << y)
            if op == 'and':
                k = y & M
                if k & (k + 1) == 0:
                    return tm.imod(x, k + 1) if k != M else x
                if y == -1: return x
                if y < 0 and (-y) & (-y - 1) == 0:   # clear low bits
                    return tm.isub(x, tm.imod(x, -y))
            if op == 'xor' and y == -1:
                return tm.isub(-1, x)
            if op in ('or', 'xor') and y == 0: return x
        if op in ('and', 'or', 'xor'):
            # 0/1 valued
            lx = tm.interval(x); ly = tm.interval(y)
            if None not in lx and None not in ly and lx[0] >= 0 and lx[1] <= 1 and ly[0] >= 0 and ly[1] <= 1:
                bx = tm.ieq(x, 1); by = tm.ieq(y, 1)
                r = {'and': tm.band, 'or': tm.bor}.get(op)
                r = r(bx, by) if r else tm.bnot(tm.beq(bx, by))
                return tm.ite(r, 1, 0)
        if isinstance(x, int) and op in ('and', 'or', 'xor'):
            return self.bitop(st, op, y, x, n)
        raise Unsupported('symbolic bit operation ' + op)

    def icmp(self, st, pr, x, y, n):
        if type(x) in (Ptr, Fn) or type(y) in (Ptr, Fn):
            x = self.p2i(x); y = self.p2i(y)
        if x is UNDEF or y is UNDEF:
            self.notes.add('branch on uninitialised integer')
            return tm.mk('bv', (self.fresh('undef'),), 'B')
        if n == 1:
            e = tm.beq(x, y)
            if pr == 'eq': return e
            if pr == 'ne': return tm.bnot(e)
            if isinstance(x, bool) and isinstance(y, bool):
                x = int(x); y = int(y)
            else:
                raise Unsupported('i1 compare')
        if type(x) is bool: x = int(x)
        if type(y) is bool: y = int(y)
        if type(x) is T and x.sort == 'R' or type(y) is T and y.sort == 'R':
            raise Unsupported('integer compare of double bits')
        if pr == 'eq': return tm.ieq(x, y)
        if pr == 'ne': return tm.bnot(tm.ieq(x, y))
        if pr[0] == 'u':
            x = self.u(st, x, n); y = self.u(st, y, n)
        k = pr[1:]
        if k == 'lt': return tm.ilt(x, y)
        if k == 'le': return tm.ile(x, y)
        if k == 'gt': return tm.ilt(y, x)
        return tm.ile(y, x)

    def pcmp(self, st, pr, x, y):
        if isinstance(x, int): x = self.i2p(x)
        if isinstance(y, int): y = self.i2p(y)
        if x is UNDEF or y is UNDEF:
            self.notes.add('compare of uninitialised pointer')
            return tm.mk('bv', (self.fresh('undef'),), 'B')
        if type(x) is Fn or type(y) is Fn:
            e = type(x) is Fn and type(y) is Fn and x.name == y.name
            return e if pr == 'eq' else (not e if pr == 'ne' else False)
        if type(x) is T: x = self.i2p(x)
        if type(y) is T: y = self.i2p(y)
        if x.obj == y.obj:
            return self.icmp(st, pr if pr in ('eq', 'ne') else 's' + pr[1:], x.off, y.off, 64)
        if pr == 'eq': return False
        if pr == 'ne': return True
        a, b = x.obj, y.obj
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]]

    def fcmp(self, pr, x, y):
        if x is UNDEF or y is UNDEF:
            x = self.undefr(x); y = self.undefr(y)
        if type(x) is float and type(y) is float:
            nan = x != x or y != y
            if pr == 'ord': return not nan
            if pr == 'uno': return nan
            if pr == 'true': return True
            if pr == 'false': return False
            if nan: return pr[0] == 'u'
            k = pr[1:]
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k]
        for z in (x, y):
            if type(z) is float:
                if z != z: 
                    return pr[0] == 'u'
                if math.isinf(z):
                    lt = (z is y and z > 0) or (z is x and z < 0)
                    k = pr[1:]
                    if k in ('lt', 'le'): return lt
                    if k in ('gt', 'ge'): return not lt
                    if k == 'eq': return False
                    if k == 'ne': return True
        if pr == 'ord' or pr == 'true': return True
        if pr == 'uno' or pr == 'false': return False
        k = pr[1:]
        if k == 'eq': return tm.req(x, y)
        if k == 'ne': return tm.bnot(tm.req(x, y))
        if k == 'lt': return tm.rlt(x, y)
        if k == 'le': return tm.rle(x, y)
        if k == 'gt': return tm.rlt(y, x)
        return tm.rle(y, x)

    def cast(self, st, k, x, t1, t2):
        if x is UNDEF: return UNDEF
        if k == 'zext':
            if t1[1] == 1:
                if type(x) is bool: return int(x)
                if type(x) is int: return x & 1
                return tm.ite(x, 1, 0)
            return self.u(st, x, t1[1])
        if k == 'trunc':
            n = t2[1]
            if type(x) in (Ptr, Fn): x = self.p2i(x)
            if type(x) is bool: x = int(x)
            if n == 1:
                if not isinstance(x, T): return bool(x & 1)
                lo, hi = tm.interval(x)
                if lo is not None and hi is not None and 0 <= lo and hi <= 1: return tm.ieq(x, 1)
                return tm.ieq(tm.imod(x, 2), 1)
            if not isinstance(x, T): return wrap(x, n)
            if self.inrange(x, n): return x
            ok = tm.band(tm.ile(-(1 << (n-1)), x), tm.ilt(x, 1 << (n-1)))
            if self.must(st, ok) is True: return x
            if self.overflow == 'check' or self.opts.get('trunc') == 'wrap':
                w = tm.imod(tm.iadd(x, 1 << (n-1)), 1 << n)
                return tm.isub(w, 1 << (n-1))
            self.assumed.add('integer narrowing conversions do not lose information')
            return x
        if k == 'sitofp':
            if type(x) is bool: x = -int(x)
            if not isinstance(x, T): return float(x)
            return tm.toreal(x)
        if k == 'uitofp':
            if type(x) is bool: return float(x)
            x = self.u(st, x, t1[1])
            if not isinstance(x, T): return float(x)
            return tm.toreal(x)
        if k in ('fptosi', 'fptoui'):
            if type(x) is float:
                if x != x or math.isinf(x):
                    self.fail(st, 'cast', 'float to int of non-finite value'); return 0
                return wrap(math.trunc(x), t2[1])
            return tm.itrunc(x)
        if k == 'ptrtoint': return self.p2i(x)
        if k == 'inttoptr': return self.i2p(x)
        if k in ('bitcast',):
            return self.coerce(x, t2, self.m.sizeof(t2))
        if k == 'fpext' or k == 'fptrunc':
            if type(x) is float:
                return x if k == 'fpext' else struct.unpack('<f', struct.pack('<f', x))[0]
        raise Unsupported('cast %s' % k)

    def select(self, st, env, d, c, a, b):
        try:
            env[d] = self.ite_val(c, a, b)
        except Unsupported:
            # fork
            return self.fork_select(st, env, d, c, a, b)

    def fork_select(self, st, env, d, c, a, b):
        if self.inmerge: raise Unsupported('select fork in merged region')
        f1 = self.feasible(st, c); f2 = self.feasible(st, tm.bnot(c))
        if f1 and f2:
            s2 = st.fork(self)
            s2.pc.append(tm.bnot(c))
            s2.frames[-1].env[d] = b
            s2.frames[-1].ip += 1
            self.work.append(s2)
            st.pc.append(c)
            env[d] = a
        elif f1: env[d] = a
        else: env[d] = b

    # ------------------------------------------------------------ calls
    def push(self, st, name, args, d, norm, unw):
        f = self.m.funcs[name]
        if f.code is None:
            self.compile(f)
        self.used[name] = self.used.get(name, 0) + 1
        fr = Frame.__new__(Frame)
        fr.fn = f
        inf = f.info
        env = list(inf['template'])
        for i, a in zip(inf['params'], args):
            env[i] = a
        fr.env = env; fr.bb = inf['entry']; fr.ip = 0; fr.prev = None
        fr.dst = d; fr.norm = norm; fr.unw = unw; fr.blocks = f.code; fr.stub = False; fr.loops = None; fr.onret = None
        if len(st.frames) > 200: raise Unsupported('recursion too deep')
        st.frames.append(fr)

    def call(self, st, env, name, args, ats, d, norm, unw, rty):
        st_name = self.stubs.get(name)
        if st_name is not None and not any(fr.fn.name == st_name for fr in st.frames):
            self.push(st, st_name, args, d, norm, unw)
            return CALLED
        h = self.externs.get(name)
        if h is not None and name.startswith('MPI_') and name in self.m.funcs: h = None
        if h is None and name.startswith('llvm.'):
            h = self.intrinsic(name)
        if h is not None:
            self.cur_dst = d; self.cur_norm = norm
            r = h(self, st, args, ats)
            if r is CALLED:
                return CALLED
            if d is not None: env[d] = r
            if norm is not None:
                fr = st.frames[-1]
                self.jump(st, fr, norm)
                return CALLED
            return None
        if name in self.m.funcs:
            self.push(st, name, args, d, norm, unw)
            return CALLED
        raise Unsupported('external function ' + name)

    def intrinsic(self, name):
        for pre, h in INTRIN:
            if name.startswith(pre):
                self.externs[name] = h
                return h
        raise Unsupported('intrinsic ' + name)

    def jump(self, st, fr, target):
        blk = fr.blocks[target]
        phis = blk[0]
        cur = fr.bb
        if phis:
            env = fr.env
            if len(phis) == 1:
                s, mp = phis[0]
                env[s] = env[mp[cur]]
            else:
                vals = [env[mp[cur]] for s, mp in phis]
                for (s, mp), v in zip(phis, vals): env[s] = v
        fr.prev = cur
        fr.bb = target
        fr.ip = 0

    def ret(self, st, v):
        fr = st.frames.pop()
        if fr.onret is not None:
            r = fr.onret(self, st, fr, v)
            if r is not None: v = r[0]
        if not st.frames:
            st.status = ('ret', v)
            return False
        c = st.frames[-1]
        if fr.dst is not None: c.env[fr.dst] = v
        if fr.norm is not None:
            self.jump(st, c, fr.norm)
        else:
            c.ip += 1
        return True

    def throw(self, st, exc):
        """unwind"""
        st.cur_exc = exc
        # frames[-1] is executing a call instruction; check whether that was an invoke in this frame
        while st.frames:
            fr = st.frames[-1]
            tgt = self.pending_unwind(st, fr)
            if tgt is not None:
                # does landing pad catch or cleanup?
                lp = None
                for ins in fr.fn.blocks[tgt]:
                    if ins[0] == 'landingpad': lp = ins; break
                sel = None
                for cl in lp[3]:
                    if cl[0] == 'cleanup':
                        sel = 0
                    elif cl[0] == 'catch':
                        cn = cl[1]
                        if cn[0] == 'null' or (cn[0] == 'g' and self.match_exc(cn[1], exc[0])):
                            sel = self.typeid(cn[1] if cn[0] == 'g' else None)
                            break
                if sel is not None:
                    st.cur_exc = (exc[0], sel)
                    self.jump(st, fr, tgt)
                    return True
            st.frames.pop()
        st.status = ('throw', exc[0])
        return False

    def match_exc(self, ti, thrown):
        return ti == thrown or thrown is None

    def typeid(self, n):
        return self.typeids.setdefault(('ti', n), len(self.typeids) + 1)

    def pending_unwind(self, st, fr):
        # the instruction being executed in fr: at index ip in body; invoke iff it's the last body entry & term is 'invoked'
        phis, body, term = fr.blocks[fr.bb]
        if term[0] == 'invoked' and fr.ip == len(body) - 1:
            for ins in reversed(fr.fn.blocks[fr.bb]):
                if ins[0] == 'invoke': return ins[6]
        return None

    # ------------------------------------------------------------ driver
    def run_entry(self, name, args=()):
        st = State.__new__(State)
        st.frames = []; st.mem = {}; st.pc = []; st.tok = self.newtok(); st.status = None
        st.cur_exc = None; st.steps = 0; st.info = {}; st.sent = None; st.excobj = None
        self.run_ctors(st)
        self.push(st, name, list(args), None, None, None)
        self.work = [st]
        self.finished = []
        while self.work:
            s = self.work.pop()
            self.run(s)
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported('path limit exceeded')
        return self.finished

    def run_ctors(self, st):
        """dynamic initialisers of namespace-scope variables, in link order; one that
        cannot be followed leaves its variable undefined (never a wrong value)"""
        names = []
        for g, f in self.m.funcs.items():
            if g.startswith('_GLOBAL__sub_I_') and f.raw:
                for l in f.raw[1]:
                    r = re.search(r'call void @(__cxx_global_var_init[\w.]*)\(', l)
                    if r and r.group(1) in self.m.funcs: names.append(r.group(1))
        keep = self.opts.get('keep')
        for n in names:
            nob, nun = len(self.obls), len(self.unsupported)
            s = st.fork(self)
            self.opts['keep'] = True
            try:
                self.push(s, n, [], None, None, None)
                self.work = []; self.finished = []
                self.run(s)
            finally:
                self.opts['keep'] = keep
            if s.status and s.status[0] == 'ret' and not self.work and len(self.obls) == nob:
                st.mem = s.mem
            del self.obls[nob:]; del self.unsupported[nun:]
        self.nthrow = 0
        st.tok = self.newtok()

    def run(self, st):
        try:
            self.run_loop(st)
        except PathEnd as e:
            st.status = (e.kind, e.msg)
        except Unsupported as e:
            st.status = ('unsupported', str(e))
            self.unsupported.append((str(e), [f.fn.name for f in st.frames][-4:]))
            if os.environ.get('VP_DEBUG'):
                import traceback
                traceback.print_exc()
                print('  stack:', [(f.fn.name, f.bb) for f in st.frames])
        if st.status[0] == 'throw': self.nthrow += 1
        self.finished.append((st.status, st))
        st.frames = []
        if not self.opts.get('keep'):
            st.mem = None

    def run_loop(self, st):
        while True:
            fr = st.frames[-1]
            env = fr.env
            phis, body, term = fr.blocks[fr.bb]
            n = len(body)
            ip = fr.ip
            self.steps += n - ip + 1
            if self.deadline is not None and (self.steps & 0x3fff) < 40 and time.time() > self.deadline:
                raise Unsupported('symbolic execution time limit')
            called = False
            try:
                while ip < n:
                    fr.ip = ip
                    r = body[ip](st, env)
                    if r is CALLED:
                        called = True
                        break
                    ip += 1
            except Throw as t:
                if not self.throw(st, t.args[0] if t.args else ('_ZTI9Exception', 0)):
                    return
                continue
            except Refork as rf:
                fs = [c for c in rf.conds if c is not False and (c is True or self.feasible(st, c))]
                if not fs: raise PathEnd('infeasible')
                for c in fs[1:]:
                    s2 = st.fork(self)
                    if isinstance(c, T): s2.pc.append(c)
                    self.work.append(s2)
                if isinstance(fs[0], T): st.pc.append(fs[0])
                continue
            if called: continue
            fr.ip = n
            k = term[0]
            if k == 'br':
                if self.loop_hook is not None and self.loop_hook(st, fr, term[1]):
                    continue
                self.jump(st, fr, term[1])
            elif k == 'cbr':
                c = env[term[1]]
                if c is True: 
                    tgt = term[2]
                elif c is False:
                    tgt = term[3]
                elif isinstance(c, int):
                    tgt = term[2] if c & 1 else term[3]
                else:
                    if c is UNDEF:
                        self.notes.add('branch on uninitialised value')
                        c = tm.mk('bv', (self.fresh('undef'),), 'B')
                    if term[2] == term[3]:
                        tgt = term[2]
                    else:
                        tgt = self.branch(st, fr, c, term[2], term[3])
                        if tgt is None: continue
                if self.loop_hook is not None and self.loop_hook(st, fr, tgt):
                    continue
                self.jump(st, fr, tgt)
            elif k == 'ret':
                if not self.ret(st, None if term[1] is None else env[term[1]]):
                    return
            elif k == 'switch':
                v = env[term[1]]
                if type(v) is bool: v = int(v)
                if type(v) is int:
                    tgt = term[2]
                    for cv, l in term[3]:
                        if int(cv) == v: tgt = l; break
                    self.jump(st, fr, tgt)
                else:
                    if v is UNDEF: raise Unsupported('switch on undef')
                    conds = []
                    rest = True
                    for cv, l in term[3]:
                        e = tm.ieq(v, cv)
                        conds.append((tm.band(rest, e), l)); rest = tm.band(rest, tm.bnot(e))
                    conds.append((rest, term[2]))
                    feas = [(c, l) for c, l in conds if c is not False and (c is True or self.feasible(st, c))]
                    if not feas: raise PathEnd('infeasible')
                    for c, l in feas[1:]:
                        s2 = st.fork(self)
                        if isinstance(c, T): s2.pc.append(c)
                        self.jump(s2, s2.frames[-1], l)
                        self.work.append(s2)
                    c, l = feas[0]
                    if isinstance(c, T): st.pc.append(c)
                    self.jump(st, fr, l)
            elif k == 'resume':
                ti = st.cur_exc[0] if st.cur_exc else None
                st.frames.pop()
                if not self.throw(st, (ti, 0)):
                    return
            elif k == 'unreachable':
                raise PathEnd('unreachable')
            else:
                raise Unsupported('terminator ' + k)

    loop_hook = None

    def branch(self, st, fr, c, t1, t2):
        f1 = self.feasible(st, c)
        nc = tm.bnot(c)
        f2 = self.feasible(st, nc) if f1 else True
        if f1 and f2:
            if self.merge:
                r = self.try_merge(st, fr, c, nc, t1, t2)
                if r: return None
            s2 = st.fork(self)
            s2.pc.append(nc)
            fr2 = s2.frames[-1]
            if self.loop_hook is None:
                self.jump(s2, fr2, t2)
            # otherwise s2 re-executes this branch, where only t2 is feasible
            self.work.append(s2)
            st.pc.append(c)
            return t1
        if f1:
            return t1
        st.pc.append(nc) if False else None
        return t2

    # ---- local merging of simple diamonds/triangles: blocks without calls/stores rejoining
    def try_merge(self, st, fr, c, nc, t1, t2):
        j = self.join_of(fr.fn, fr.bb, t1, t2)
        if j is None: return False
        res = []
        for cond, t in ((c, t1), (nc, t2)):
            s = st.fork(self)
            s.pc.append(cond)
            f2 = s.frames[-1]
            depth = len(s.frames)
            cur = t
            ok = self.run_to(s, depth, t, j)
            if not ok: return False
            res.append(s)
        a, b = res
        # merge b into a
        try:
            fa = a.frames[-1]; fb = b.frames[-1]
            env = []
            for x, y in zip(fa.env, fb.env):
                env.append(x if x is y or (type(x) is type(y) and type(x) in (int, float, bool) and x == y) else self.merge_val(c, x, y))
            mem = dict(a.mem)
            for oid, ob in b.mem.items():
                oa = mem.get(oid)
                if oa is ob: continue
                if oa is None:
                    mem[oid] = ob; continue
                if oa.log is not None or ob.log is not None or oa.freed != ob.freed or oa.default is not ob.default:
                    base = st.mem.get(oid)
                    raise Unsupported('merge of logged object')
                if oa.cells == ob.cells: continue
                nc_ = oa.clone(st.tok)
                keys = set(oa.cells) | set(ob.cells)
                for k in keys:
                    ca = oa.cells.get(k); cb = ob.cells.get(k)
                    if ca is cb: continue
                    if ca is None or cb is None:
                        if oa.alloc == 'stack' and (oa.default is UNDEF):
                            cc = ca or cb
                            nc_.cells[k] = cc     # dead temporary on the other side
                            continue
                        sz = (ca or cb)[0]
                        dv = 0.0 if isinstance((ca or cb)[1], float) or (isinstance((ca or cb)[1], T) and (ca or cb)[1].sort == 'R') else 0
                        if oa.default != 0: raise Unsupported('merge with default')
                        ca = ca or (sz, dv); cb = cb or (sz, dv)
                    if ca[0] != cb[0]: raise Unsupported('merge cell size')
                    nc_.cells[k] = (ca[0], self.merge_val(c, ca[1], cb[1]))
                mem[oid] = nc_
        except Unsupported:
            return False
        st.mem = mem
        # every object must be re-owned on write
        st.tok = self.newtok()
        base = len(st.pc)
        ea = a.pc[base + 1:]; eb = b.pc[base + 1:]
        if ea or eb:
            ca = True
            for x in ea: ca = tm.band(ca, x)
            cb = True
            for x in eb: cb = tm.band(cb, x)
            d = tm.bor(tm.band(c, ca), tm.band(nc, cb))
            if isinstance(d, T): st.pc.append(d)
        fr.env = env
        fr.bb = fa.bb; fr.prev = fa.prev; fr.ip = 0
        da = a.info.get('divs'); db = b.info.get('divs')
        if da or db:
            st.info['divs'] = tuple(dict.fromkeys((da or ()) + (db or ())))
        return True

    def merge_val(self, c, x, y):
        if x is y: return x
        if type(x) is Ptr and type(y) is Ptr and x.obj == y.obj and not isinstance(x.off, T) and not isinstance(y.off, T) and x.off == y.off: return x
        if type(x) is Fn and type(y) is Fn and x.name == y.name: return x
        if x is UNDEF: return y
        if y is UNDEF: return x
        if type(x) is Ptr or type(y) is Ptr:
            return UNDEF if self.opts.get('merge_ptr_undef', True) and type(x) is Ptr and type(y) is Ptr and x.obj != y.obj and False else self._mp(c, x, y)
        return self.ite_val(c, x, y)

    def _mp(self, c, x, y):
        return self.ite_val(c, x, y)

    def run_to(self, s, depth, t, j):
        self.inmerge += 1
        try:
            return self.run_to1(s, depth, t, j)
        finally:
            self.inmerge -= 1

    def run_to1(self, s, depth, t, j):
        """run s from block t until it reaches block j in the frame at depth; no forking, no calls out, no throw"""
        fr = s.frames[-1]
        nob = len(self.obls)
        try:
            self.jump(s, fr, t)
            if fr.bb == j and t == j: return True
            steps = 0
            while True:
                steps += 1
                if steps > 60: return False
                fr = s.frames[-1]
                phis, body, term = fr.blocks[fr.bb]
                ip = fr.ip
                called = False
                while ip < len(body):
                    fr.ip = ip
                    r = body[ip](s, fr.env)
                    if r is CALLED:
                        called = True; break
                    ip += 1
                if called:
                    if len(s.frames) > depth + 6: return False
                    continue
                fr.ip = len(body)
                k = term[0]
                if k == 'br': tgt = term[1]
                elif k == 'cbr':
                    c = fr.env[term[1]]
                    if type(c) is T:
                        f1 = self.feasible(s, c); f2 = self.feasible(s, tm.bnot(c))
                        if f1 and f2:
                            if self.try_merge(s, fr, c, tm.bnot(c), term[2], term[3]):
                                if len(s.frames) == depth and s.frames[-1].bb == j: return True
                                continue
                            return False
                        tgt = term[2] if f1 else term[3]
                    elif type(c) is bool: tgt = term[2] if c else term[3]
                    else: return False
                elif k == 'ret':
                    if len(s.frames) <= depth: return False
                    self.ret(s, None if term[1] is None else fr.env[term[1]])
                    continue
                else:
                    return False
                self.jump(s, fr, tgt)
                if len(s.frames) == depth and tgt == j: return True
        except (Throw, PathEnd, Unsupported):
            del self.obls[nob:]
            return False

    def join_of(self, fn, b, t1, t2):
        """immediate post-dominator of b (ignoring unreachable/throw exits)"""
        if fn.info.get('ipdom') is None:
            fn.info['ipdom'] = ipdoms(fn)
        return fn.info['ipdom'].get(b)

def successors(fn, lab):
    ins = fn.blocks[lab][-1]
    k = ins[0]
    if k == 'br': return [ins[1]]
    if k == 'cbr': return [ins[2], ins[3]]
    if k == 'switch': return [ins[3]] + [l for _, l in ins[4]]
    if k == 'invoke': return [ins[5]]
    return []

def ipdoms(fn):
    labs = list(fn.order)
    EXIT = None
    succ = {l: successors(fn, l) for l in labs}
    # only exits through ret; blocks ending in unreachable are ignored
    pd = {}
    allset = set(labs) | {'$exit'}
    dead = set(l for l in labs if fn.blocks[l][-1][0] in ('unreachable', 'resume'))
    for l in labs:
        if fn.blocks[l][-1][0] == 'ret': succ[l] = ['$exit']
    for l in labs: pd[l] = set(allset)
    pd['$exit'] = {'$exit'}
    ch = True
    order = list(reversed(labs))
    while ch:
        ch = False
        for l in order:
            ss = [s for s in succ[l] if s not in dead]
            if not ss:
                continue
            n = set.intersection(*[pd[s] for s in ss]) | {l}
            if n != pd[l]:
                pd[l] = n; ch = True
    res = {}
    for l in labs:
        if l in dead: continue
        c = pd[l] - {l}
        # immediate: the one whose own pd set is largest
        best = None
        for x in c:
            if best is None or len(pd[x]) > len(pd[best]): best = x
        res[l] = best if best != '$exit' else None
    return res

class CopyLayer(object):
    def __init__(self, doff, src, soff, n, esz):
        self.doff = doff; self.src = src; self.soff = soff; self.n = n; self.esz = esz
    def lookup(self, ex, st, o, off, ty, sz):
        d = tm.isub(off, self.doff)
        hit = tm.band(tm.ile(0, d), tm.ile(tm.iadd(d, sz), self.n))
        if hit is False or ex.must(st, tm.bnot(hit)) is True: return None
        if hit is not True and ex.must(st, hit) is True: hit = True
        so = tm.iadd(self.soff, d)
        if self.src.log is not None:
            v = ex.load_log(st, self.src, so, ty, sz, len(self.src.log))
        else:
            v = ex.load_base(st, self.src, so, ty, sz)
        return hit, v

class FillLayer(object):
    def __init__(self, doff, n, b):
        self.doff = doff; self.n = n; self.b = b
    def lookup(self, ex, st, o, off, ty, sz):
        d = tm.isub(off, self.doff)
        hit = tm.band(tm.ile(0, d), tm.ile(tm.iadd(d, sz), self.n))
        if hit is False or ex.must(st, tm.bnot(hit)) is True: return None
        if hit is not True and ex.must(st, hit) is True: hit = True
        if self.b != 0: raise Unsupported('non-zero fill')
        return hit, ex.zero(ty)

from externs import EXTERNS, INTRIN
