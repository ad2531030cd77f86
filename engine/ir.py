"""Parser for the textual LLVM IR (clang/opt 18, opaque pointers) of the real sources."""
import re, struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<gname>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 | (?P<lname>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 | (?P<comdat>\$"[^"]*"|\$[-a-zA-Z$._0-9]+)
 | (?P<md>![a-zA-Z0-9._]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>0x[KLMHR]?[0-9A-Fa-f]+|[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|[-+]?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<qstr>"[^"]*")
 | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    i = 0; n = len(s)
    match = TOK.match
    while i < n:
        if s[i] == ';':
            break
        m = match(s, i)
        if not m:
            raise ValueError('tokenize: %r' % s[i:i+60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out

class Func(object):
    __slots__ = ('name', 'params', 'rettype', 'blocks', 'order', 'raw', 'nslots', 'compiled', 'attrs', 'vararg', 'code', 'info')

class Module(object):
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self._lay = {}

    # ---------------- layout
    def size_align(self, t):
        r = self._lay.get(t)
        if r is None:
            r = self._sa(t)
            self._lay[t] = r
        return r

    def _sa(self, t):
        if t == 'ptr': return (8, 8)
        if t == 'double': return (8, 8)
        if t == 'float': return (4, 4)
        if t == 'x86_fp80': return (16, 16)
        if t == 'fp128': return (16, 16)
        if t == 'void': return (1, 1)
        k = t[0]
        if k == 'i':
            n = t[1]
            b = 1
            while b * 8 < n: b *= 2
            if n > 64: return ((n + 63) // 64 * 8, 16)
            return (b, b)
        if k == 'arr':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.size_align(t[2])
            return (s * t[1], s * t[1])
        if k == 'named':
            return self.size_align(self.types[t[1]])
        if k == 'struct':
            off = 0; al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]: a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise ValueError('size of %r' % (t,))

    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            t = self.types[t[1]]
        return t

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            if j == i: return off, e
            off += s
        raise ValueError('field')

    def sizeof(self, t):
        return self.size_align(t)[0]

class P(object):
    """token cursor"""
    __slots__ = ('t', 'i', 'm')
    def __init__(self, toks, m):
        self.t = toks; self.i = 0; self.m = m
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        r = self.t[self.i][1]; self.i += 1
        return r
    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        r = self.next()
        if r != s:
            raise ValueError('expected %r got %r in %s' % (s, r, ' '.join(x[1] for x in self.t)[:300]))

    def type(self):
        k, v = self.t[self.i]
        if k == 'word':
            self.i += 1
            if v == 'ptr':
                if self.peek() == 'addrspace':
                    self.i += 4
                return 'ptr'
            if v[0] == 'i' and v[1:].isdigit():
                return ('i', int(v[1:]))
            if v in ('double', 'float', 'void', 'x86_fp80', 'fp128', 'metadata', 'label', 'token', 'opaque'):
                return v
            raise ValueError('type %r' % v)
        if k == 'lname':
            self.i += 1
            return ('named', v[1:].strip('"'))
        if v == '[':
            self.i += 1
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect(']')
            return ('arr', n, e)
        if v == '<':
            self.i += 1
            if self.peek() == '{':
                t = self.type()
                self.expect('>')
                return ('struct', t[1], True)
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect('>')
            return ('vec', n, e)
        if v == '{':
            self.i += 1
            el = []
            if not self.accept('}'):
                while True:
                    el.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            return ('struct', tuple(el), False)
        raise ValueError('type tok %r' % v)

    PATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
             'returned', 'inreg', 'immarg', 'nofree', 'noreturn', 'nounwind', 'sret', 'byval', 'align', 'dereferenceable',
             'dereferenceable_or_null', 'allocptr', 'nest', 'swiftself', 'allocalign', 'noext', 'writable', 'dead_on_unwind', 'range', 'captures'}
    def skip_attrs(self):
        while True:
            k = self.kind(); v = self.peek()
            if k == 'word' and v in self.PATTR:
                self.i += 1
                if v == 'align':
                    if self.peek() == '(':
                        self.skip_paren()
                    else:
                        self.i += 1
                elif self.peek() == '(':
                    self.skip_paren()
            elif k == 'attr':
                self.i += 1
            elif k == 'qstr':
                self.i += 1
                if self.accept('='): self.i += 1
            else:
                return
    def skip_paren(self):
        d = 0
        while True:
            v = self.next()
            if v == '(': d += 1
            elif v == ')':
                d -= 1
                if d == 0: return

    def value(self, ty):
        """operand value: ('l',name) | const"""
        k, v = self.t[self.i]
        if k == 'lname':
            self.i += 1
            return ('l', v[1:].strip('"'))
        return self.const(ty)

    def const(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'gname':
            return ('g', v[1:].strip('"'))
        if k == 'num':
            if ty == 'double' or ty == 'float':
                if v.startswith('0x'):
                    return ('c', struct.unpack('>d', int(v[2:], 16).to_bytes(8, 'big'))[0])
                return ('c', float(v))
            if ty == 'x86_fp80':
                return ('c', v)
            return ('c', int(v))
        if k == 'str':
            return ('cstr', unescape(v[2:-1]))
        if k == 'word':
            if v == 'true': return ('c', True)
            if v == 'false': return ('c', False)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef', ty)
            if v == 'zeroinitializer': return ('zero', ty)
            if v == 'none': return ('c', None)
            if v == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.i += 1
                    if self.peek() == '(' and self.t[self.i-1][1] == 'inrange': self.skip_paren()
                self.expect('(')
                st = self.type(); self.expect(',')
                ops = []
                while True:
                    if self.peek() == 'inrange':
                        self.i += 1
                        if self.peek() == '(': self.skip_paren()
                    t = self.type(); ops.append((t, self.const(t)))
                    if self.accept(')'): break
                    self.expect(',')
                return ('cgep', st, tuple(ops))
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'addrspacecast'):
                self.expect('(')
                t = self.type(); c = self.const(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('ccast', v, t, c, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                while self.peek() in ('nuw', 'nsw', 'exact'): self.i += 1
                self.expect('(')
                t = self.type(); a = self.const(t); self.expect(','); self.type(); b = self.const(t); self.expect(')')
                return ('cbin', v, t, a, b)
            if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
                raise ValueError('const ' + v)
        if v == '[' or v == '{' or v == '<':
            pk = False
            if v == '<' and self.peek() == '{':
                self.i += 1; pk = True
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if pk: close = '}'
            el = []
            if not self.accept(close):
                while True:
                    t = self.type(); el.append((t, self.const(t)))
                    if self.accept(close): break
                    self.expect(',')
            if pk: self.expect('>')
            return ('agg', tuple(el))
        raise ValueError('const %r %r' % (k, v))

def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized',
           'fastcc', 'ccc', 'coldcc', 'tailcc'}

def parse_module(path):
    m = Module()
    with open(path) as f:
        lines = f.read().split('\n')
    i = 0; n = len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] in ';!' or ln.startswith('source_filename') or ln.startswith('target') or ln.startswith('attributes') or ln.startswith('module asm') or ln[0] == '$' or ln.startswith('^'):
            i += 1; continue
        if ln[0] == '%':
            p = P(tokenize(ln), m)
            nm = p.next()[1:].strip('"'); p.expect('='); p.expect('type')
            m.types[nm] = p.type()
            i += 1; continue
        if ln[0] == '@':
            p = P(tokenize(ln), m)
            nm = p.next()[1:].strip('"'); p.expect('=')
            ext = False
            while True:
                v = p.peek()
                if v in LINKAGE:
                    if v in ('external', 'extern_weak'): ext = True
                    p.next()
                    if v == 'thread_local' and p.peek() == '(': p.skip_paren()
                else: break
            v = p.next()
            if v == 'alias':
                t = p.type()
                if p.peek() == '(': p.skip_paren()
                p.expect(','); t2 = p.type(); c = p.const(t2)
                m.globals[nm] = ('alias', c)
                i += 1; continue
            assert v in ('global', 'constant'), ln[:200]
            t = p.type()
            init = None
            if not ext and p.peek() is not None and p.peek() != ',':
                init = p.const(t)
            m.globals[nm] = ('var', t, init, v == 'constant')
            i += 1; continue
        if ln.startswith('declare'):
            p = P(tokenize(ln), m)
            nm = [v for k, v in p.t if k == 'gname'][0][1:].strip('"')
            m.decls[nm] = ln
            i += 1; continue
        if ln.startswith('define'):
            j = i
            body = []
            hdr = ln
            j += 1
            while lines[j] != '}':
                body.append(lines[j]); j += 1
            f = Func()
            f.raw = (hdr, body); f.compiled = False; f.blocks = None; f.code = None; f.info = None
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', hdr)
            f.name = mm.group(1).strip('"')
            m.funcs[f.name] = f
            i = j + 1
            continue
        i += 1
    return m

def parse_body(m, f):
    hdr, body = f.raw
    hdr = re.sub(r'\)[^)]*\{\s*$', ')', hdr) if False else hdr
    p = P(tokenize(hdr.rstrip('{ ')), m)
    p.expect('define')
    while True:
        v = p.peek()
        if v in LINKAGE or v in ('dso_local',):
            p.next()
            continue
        k = p.kind()
        if k == 'word' and v in P.PATTR:
            p.skip_attrs(); continue
        break
    f.rettype = p.type()
    p.next()
    p.expect('(')
    f.params = []
    f.vararg = False
    if not p.accept(')'):
        an = 0
        while True:
            if p.accept('...'):
                f.vararg = True
                p.expect(')')
                break
            t = p.type(); p.skip_attrs()
            nm = None
            if p.kind() == 'lname':
                nm = p.next()[1:].strip('"')
            else:
                nm = str(an)
            f.params.append((t, nm)); an += 1
            if p.accept(')'): break
            p.expect(',')
    # join continuation lines
    blocks = []
    cur = None
    i = 0
    n = len(body)
    first = True
    while i < n:
        ln = body[i]; i += 1
        if not ln.strip() or ln.lstrip().startswith(';'):
            continue
        if ln[0] not in ' \t':
            lab = ln.split(';')[0].strip()
            lab = lab[:-1].strip('"')
            cur = (lab, [])
            blocks.append(cur)
            continue
        if cur is None:
            cur = (str(len([1 for t, nm in f.params if nm.isdigit()])) , [])
            blocks.append(cur)
        s = ln.strip()
        if s.startswith('switch') and s.endswith('['):
            while True:
                nx = body[i]; i += 1
                s += ' ' + nx.strip()
                if nx.strip().startswith(']'): break
        else:
            while i < n and body[i].strip() and (re.match(r'\s+(to label|catch |cleanup|filter )', body[i])):
                s += ' ' + body[i].strip(); i += 1
        cur[1].append(s)
    f.order = [b[0] for b in blocks]
    f.blocks = {}
    for lab, ins in blocks:
        f.blocks[lab] = [parse_ins(m, s) for s in ins]
    return f

FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds', 'disjoint', 'nneg', 'nusw'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}

def parse_ins(m, s):
    # strip metadata attachments
    k = s.find(', !')
    if k >= 0: s = s[:k]
    p = P(tokenize(s), m)
    dst = None
    if p.kind() == 'lname' and p.peek(1) == '=':
        dst = p.next()[1:].strip('"'); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in FLAGS: fl.add(p.next())
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return (op, dst, t, a, b, frozenset(fl))
    if op == 'fneg':
        while p.peek() in FLAGS: p.next()
        t = p.type(); a = p.value(t)
        return ('fneg', dst, t, a)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS: p.next()
        pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return (op, dst, pr, t, a, b)
    if op in CAST:
        while p.peek() in FLAGS: p.next()
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return ('cast', dst, op, t, a, t2)
    if op == 'select':
        while p.peek() in FLAGS: p.next()
        t = p.type(); c = p.value(t); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); p.type(); b = p.value(t1)
        return ('select', dst, c, t1, a, b)
    if op == 'phi':
        while p.peek() in FLAGS: p.next()
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = p.next()[1:].strip('"'); p.expect(']')
            inc.append((v, l))
            if not p.accept(','): break
        return ('phi', dst, t, inc)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); p.expect(','); p.type(); a = p.value('ptr')
        return ('load', dst, t, a)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); v = p.value(t); p.expect(','); p.type(); a = p.value('ptr')
        return ('store', t, v, a)
    if op == 'getelementptr':
        while p.peek() in FLAGS: p.next()
        st = p.type(); p.expect(',')
        ops = []
        while True:
            t = p.type(); ops.append((t, p.value(t)))
            if not p.accept(','): break
        return ('gep', dst, st, ops)
    if op == 'alloca':
        t = p.type(); nn = ('c', 1)
        if p.accept(','):
            if p.peek() != 'align':
                tn = p.type(); nn = p.value(tn)
        return ('alloca', dst, t, nn)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return ('br', p.next()[1:].strip('"'))
        p.type(); c = p.value(('i', 1)); p.expect(','); p.expect('label'); a = p.next()[1:].strip('"'); p.expect(','); p.expect('label'); b = p.next()[1:].strip('"')
        return ('cbr', c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"'); p.expect('[')
        cs = []
        while not p.accept(']'):
            p.type(); c = p.const(t); p.expect(','); p.expect('label'); cs.append((c[1], p.next()[1:].strip('"')))
        return ('switch', t, v, d, cs)
    if op == 'ret':
        t = p.type()
        if t == 'void': return ('ret', None, None)
        return ('ret', t, p.value(t))
    if op == 'unreachable': return ('unreachable',)
    if op in ('call', 'invoke'):
        while True:
            v = p.peek()
            if v in FLAGS or v in LINKAGE: p.next(); continue
            if p.kind() == 'word' and v in P.PATTR: p.skip_attrs(); continue
            break
        t = p.type()
        if p.peek() == '(':   # full function type (varargs)
            p.skip_paren()
        if p.kind() == 'lname': cal = ('l', p.next()[1:].strip('"'))
        elif p.kind() == 'gname': cal = ('g', p.next()[1:].strip('"'))
        else:
            if p.peek() == 'asm':
                return ('asm', dst)
            cal = p.const('ptr')
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type(); p.skip_attrs()
                if at == 'metadata':
                    # skip to comma
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        v = p.next()
                        if v == '(': d += 1
                        if v == ')': d -= 1
                    args.append((at, ('c', None)))
                else:
                    args.append((at, p.value(at)))
                if p.accept(')'): break
                p.expect(',')
        norm = unw = None
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.expect('label'); norm = p.next()[1:].strip('"'); p.expect('unwind'); p.expect('label'); unw = p.next()[1:].strip('"')
        return (op, dst, t, cal, args, norm, unw)
    if op == 'landingpad':
        t = p.type()
        clauses = []
        while p.peek() is not None:
            w = p.next()
            if w == 'cleanup': clauses.append(('cleanup',))
            elif w in ('catch', 'filter'):
                tt = p.type(); clauses.append((w, p.const(tt)))
        return ('landingpad', dst, t, clauses)
    if op == 'resume':
        return ('resume',)
    if op == 'extractvalue':
        t = p.type(); a = p.value(t); ix = []
        while p.accept(','): ix.append(int(p.next()))
        return ('extractvalue', dst, t, a, ix)
    if op == 'insertvalue':
        t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2); ix = []
        while p.accept(','): ix.append(int(p.next()))
        return ('insertvalue', dst, t, a, t2, b, ix)
    if op == 'freeze':
        t = p.type(); a = p.value(t)
        return ('freeze', dst, t, a)
    if op in ('atomicrmw', 'cmpxchg', 'fence', 'va_arg', 'extractelement', 'insertelement', 'shufflevector', 'indirectbr', 'callbr'):
        return ('unsupported', dst, op, s)
    raise ValueError('instr %r' % s)

if __name__ == '__main__':
    import sys, time
    t0 = time.time()
    m = parse_module(sys.argv[1])
    t1 = time.time()
    for f in m.funcs.values():
        parse_body(m, f)
    print(len(m.funcs), len(m.globals), t1 - t0, time.time() - t1)
