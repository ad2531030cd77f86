"""Loop contracts: an invariant predicate (harness function over the harness's own
ghost struct and the objects it points to) is attached to every natural loop of a
function.  At loop entry the invariant becomes an obligation; every register and
memory cell the loop can modify is havocked (found by iterating the body to a fixed
point, not by trusting a frame clause); auxiliary facts about havocked integers are
inferred from the contract's candidate expressions by Houdini-style elimination;
preservation is an obligation at every back edge; after the loop only the invariant,
the surviving candidates and the exit condition are known."""
import term as tm
from term import T, Unsupported
import sx as SX
import ir as IR

class Stop(Exception):
    def __init__(self, kind): self.kind = kind

def headers(fn):
    """natural loops: header label -> set of labels"""
    r = fn.info.get('loops')
    if r is not None: return r
    labs = list(fn.order)
    succ = {}
    for l in labs:
        ins = fn.blocks[l][-1]
        s = SX.successors(fn, l)
        if ins[0] == 'invoke': s = [ins[5], ins[6]]
        succ[l] = [x for x in s if x in fn.blocks]
    pred = {l: [] for l in labs}
    for l in labs:
        for s in succ[l]: pred[s].append(l)
    entry = labs[0]
    dom = {l: set(labs) for l in labs}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for l in labs[1:]:
            ps = [dom[p] for p in pred[l]]
            n = (set.intersection(*ps) if ps else set()) | {l}
            if n != dom[l]: dom[l] = n; ch = True
    loops = {}
    for l in labs:
        for h in succ[l]:
            if h in dom[l]:
                body = loops.setdefault(h, {h})
                w = [l]
                while w:
                    x = w.pop()
                    if x in body: continue
                    body.add(x)
                    w.extend(pred[x])
    fn.info['loops'] = loops; fn.info['dom'] = dom
    return loops

class Spec(object):
    def __init__(self, inv, arg, nce, ce):
        self.inv = inv; self.arg = arg; self.nce = nce; self.ce = ce
        self.gen = []       # generalised cells: (oid, off, size)
        self.cuts = {}; self.W = {}

def liveslots(fn, tgt):
    """register slots read by code reachable from tgt before being written is over-approximated by: read anywhere reachable"""
    key = ('live', tgt)
    headers(fn)
    r = fn.info.get(key)
    if r is not None: return r
    seen = set(); w = [tgt]
    names = set()
    defs = set()
    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str): names.add(x[1])
            else:
                for y in x: walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    while w:
        l = w.pop()
        if l in seen or l not in fn.blocks: continue
        seen.add(l)
        for ins in fn.blocks[l]:
            for y in ins: walk(y)
            if len(ins) > 1 and isinstance(ins[1], str) and tgt in fn.info['dom'][l]: defs.add(ins[1])
        ins = fn.blocks[l][-1]
        s = SX.successors(fn, l)
        if ins[0] == 'invoke': s = [ins[5], ins[6]]
        w.extend(s)
    fn.info[key] = (names, defs)
    return names, defs

def install(ex):
    if ex.loop_hook is None:
        ex.loopspecs = {}
        ex.loop_hook = lambda st, fr, tgt: hook(ex, st, fr, tgt)
        ex.loopsum = {}

def hook(ex, st, fr, tgt):
    lp = fr.loops
    if lp:
        for h in list(lp):
            if tgt not in headers(fr.fn)[h]:
                mode = lp.pop(h)
                if mode[0] == 'probe': raise Stop('exit')
        if tgt in lp:
            mode = lp[tgt]
            if mode[0] == 'probe':
                ex.jump(st, fr, tgt)
                raise Stop('back')
            # real back edge
            ex.jump(st, fr, tgt)
            c = callbool(ex, st, mode[1].inv, [mode[1].arg])
            ex.obls.append(dict(kind='inv', label='loop invariant of %s preserved' % mode[2], pc=list(st.pc), cond=c, where=ex.where(st)[-3:], data=None, info=st.info))
            raise SX.PathEnd('loopback')
    sp = None; big = False
    for sub, s in ex.loopspecs.items():
        if sub.rstrip('!') in fr.fn.name: sp = s; big = sub.endswith('!')
    if sp is None: return False
    hs = headers(fr.fn)
    if tgt not in hs: return False
    if big and len(hs[tgt]) != max(len(x) for x in hs.values()): return False     # only the largest loop of the function is cut
    return enter(ex, st, fr, tgt, sp)

def callbool(ex, st, fn, args):
    r = callfn(ex, st, fn, args)
    d = False
    for c, v in r:
        b = v
        if isinstance(b, T) and b.sort == 'I': b = tm.bnot(tm.ieq(b, 0))
        elif isinstance(b, int) and not isinstance(b, bool): b = bool(b)
        d = tm.bor(d, tm.band(c, b))
    return d

def callint(ex, st, fn, args):
    r = callfn(ex, st, fn, args)
    v = r[-1][1]
    for c, w in reversed(r[:-1]): v = tm.ite(c, w, v)
    return v

def callfn(ex, st, fn, args):
    """evaluate a pure harness function in st: [(condition, value)]"""
    s = st.fork(ex)
    depth = len(s.frames)
    base = len(s.pc)
    res = []
    work, ex.work = ex.work, []
    nob = len(ex.obls)
    fin = ex.finished
    hook_, ex.loop_hook = ex.loop_hook, None
    mg, ex.merge = ex.merge, True
    try:
        ex.push(s, fn, args, None, None, None)
        def onret(e, st2, fr, v):
            c = True
            for p in st2.pc[base:]: c = tm.band(c, p)
            res.append((c, v))
            raise Stop('ret')
        s.frames[-1].onret = onret
        ex.work.append(s)
        while ex.work:
            x = ex.work.pop()
            try: ex.run_loop(x)
            except Stop: pass
            except SX.PathEnd: pass
        del ex.obls[nob:]
    finally:
        ex.work = work; ex.loop_hook = hook_; ex.merge = mg
    if not res: raise Unsupported('loop contract has no value')
    return res

def cellkind(v):
    if isinstance(v, bool): return 'b'
    if isinstance(v, int): return 'i'
    if isinstance(v, float): return 'r'
    if isinstance(v, T): return {'I': 'i', 'R': 'r', 'B': 'b'}.get(v.sort)
    return None

def freshval(ex, kind, sz, name):
    if kind == 'i':
        nm = ex.fresh('loop.' + name)
        b = 1 << (8 * sz - 1)
        at = tm.mk('iv', (nm,), 'I'); at.iv = (-b, b - 1)
        t = tm.iatom(at); t.iv = (-b, b - 1)
        return t
    if kind == 'r': return tm.rvar(ex.fresh('loop.' + name))
    if kind == 'b': return tm.mk('bv', (ex.fresh('loop.' + name),), 'B')
    raise Unsupported('loop modifies a pointer')

def probe(ex, st):
    """run the body once from st (whose top frame is marked as probing); states arriving back at the header"""
    backs = []
    work, ex.work = ex.work, [st]
    nob = len(ex.obls)
    try:
        n = 0
        while ex.work:
            x = ex.work.pop()
            n += 1
            if n > 400: raise Unsupported('loop body has too many paths')
            try:
                ex.run_loop(x)
            except Stop as e:
                if e.kind == 'back': backs.append(x)
            except SX.PathEnd:
                pass
    finally:
        ex.work = work
        del ex.obls[nob:]
    return backs

def enter(ex, st, fr, tgt, sp):
    ex.jump(st, fr, tgt)
    name = '%s' % (fr.fn.name,)
    phis = fr.blocks[tgt][0]
    depth = len(st.frames)
    base = st.fork(ex)
    slots = [s for s, mp in phis]
    W = {}          # (oid, off, sz) -> kind
    if sp.gen:
        base.pc = []        # the continuation knows only the invariant
        W = dict(sp.W.get((fr.fn.name, tgt), {}))
    def havoc(src):
        h = src.fork(ex)
        f = h.frames[-1]
        vals = []
        for s in slots:
            k = cellkind(base.frames[-1].env[s])
            if k is None:
                raise Unsupported('loop-carried pointer')
            w = fr.fn.info.get('phiw', {}).get(s, 8 if k != 'b' else 1)
            v = freshval(ex, k, 4 if k == 'i' else w, 'phi')
            f.env[s] = v; vals.append((('phi', s), v))
        for (oid, off, sz), k in W.items():
            v = freshval(ex, k, sz, 'cell')
            ex.putcell(ex.wobj(h, SX.Ptr(oid, off)), off, sz, v)
            vals.append(((oid, off, sz), v))
        return h, vals
    def value(s, loc):
        if loc[0] == 'phi': return s.frames[-1].env[loc[1]]
        return s.mem[loc[0]].cells[loc[1]][1]
    if sp.gen and W:
        sig = signature(ex, base, fr.fn, tgt, depth, set(slots), W, base)
        prev = sp.cuts.get((fr.fn.name, tgt, sig))
        if prev is not None:
            ok = True
            for l, k in prev:
                q = candf(ex, base, value(base, l), sp, k)
                if not (q is True or (isinstance(q, T) and ex.must(st, q) is True)): ok = False
            if ok:
                establish(ex, st, base, sp, prev, callbool(ex, base, sp.inv, [sp.arg]), name, value)
                raise SX.PathEnd('cut')
    # fixed point on the modified set
    for it in range(12):
        h, vals = havoc(base)
        c = callbool(ex, h, sp.inv, [sp.arg])
        if isinstance(c, T): h.pc.append(c)
        f = h.frames[-1]
        f.loops = dict(f.loops or {}); f.loops[tgt] = ('probe',)
        ref = h.fork(ex)
        backs = probe(ex, h)
        new = False
        for b in backs:
            for oid, ob in b.mem.items():
                oa = ref.mem.get(oid)
                if oa is None or oa is ob: continue
                if ob.log is not None: raise Unsupported('loop writes at a symbolic offset')
                if oa.cells == ob.cells: continue
                for k in set(oa.cells) | set(ob.cells):
                    ca, cb = oa.cells.get(k), ob.cells.get(k)
                    if ca is cb: continue
                    if ca is not None and cb is not None and ca[0] == cb[0] and ca[1] is cb[1]: continue
                    if ca is None and oa.alloc == 'stack': continue     # first written in the body
                    if (oid, k, (cb or ca)[0]) in W: continue
                    kd = cellkind((ca or cb)[1])
                    if kd is None or (ca and cb and ca[0] != cb[0]): raise Unsupported('loop modifies a non-scalar cell (%s+%s: %s -> %s)' % (oa.name, k, ca, cb))
                    W[(oid, k, (cb or ca)[0])] = kd; new = True
        if not new: break
    else:
        raise Unsupported('loop frame does not stabilise')
    # candidates: integer register/cell == contract expression
    def value(s, loc):
        if loc[0] == 'phi': return s.frames[-1].env[loc[1]]
        return s.mem[loc[0]].cells[loc[1]][1]
    # generalised cells of the contract are treated as modified
    for oid, off, sz in sp.gen:
        c = base.mem[oid].cells.get(off)
        if c is None or c[0] != sz or cellkind(c[1]) is None: raise Unsupported('generalised cell')
        W.setdefault((oid, off, sz), cellkind(c[1]))
    locs = [('phi', s) for s in slots if cellkind(base.frames[-1].env[s]) in 'ib'] + [k for k in W if W[k] in 'ib']
    cands = []
    for l in locs:
        for k in range(-1, sp.nce):
            q = candf(ex, base, value(base, l), sp, k)
            if q is True or ex.must(st, q) is True: cands.append((l, k))
    while True:
        h, vals = havoc(base)
        c = callbool(ex, h, sp.inv, [sp.arg])
        if isinstance(c, T): h.pc.append(c)
        for l, k in cands:
            q = candf(ex, h, value(h, l), sp, k)
            if isinstance(q, T): h.pc.append(q)
        keep = h.fork(ex)
        f = h.frames[-1]
        f.loops = dict(f.loops or {}); f.loops[tgt] = ('probe',)
        backs = probe(ex, h) if cands else []
        bad = set()
        for b in backs:
            for l, k in cands:
                if (l, k) in bad: continue
                q = candf(ex, b, value(b, l), sp, k)
                if not (q is True or proves(ex, b, q)): bad.add((l, k))
        if not bad: break
        cands = [x for x in cands if x not in bad]
    c0 = callbool(ex, base, sp.inv, [sp.arg])
    if sp.gen:
        sp.W[(fr.fn.name, tgt)] = dict(W)
        sig = signature(ex, keep, fr.fn, tgt, depth, set(slots), W, base)
        ck = (fr.fn.name, tgt, sig)
        prev = sp.cuts.get(ck)
        if prev is not None and all(x in cands for x in prev):
            establish(ex, st, base, sp, prev, c0, name, value)
            raise SX.PathEnd('cut')
        sp.cuts[ck] = list(cands)
    if c0 is not True:
        ex.obls.append(dict(kind='inv', label='loop invariant of %s established' % name, pc=list(st.pc), cond=c0, where=ex.where(st)[-3:], data=None, info=st.info))
    ex.loopsum[name] = dict(loops=ex.loopsum.get(name, {}).get('loops', 0) + 1, modified=len(W) + len(slots), inferred=len(cands))
    # continue in st from the havocked state
    st.frames = keep.frames; st.mem = keep.mem; st.pc = keep.pc; st.tok = ex.newtok()
    f = st.frames[-1]
    f.loops = dict(f.loops or {}); f.loops[tgt] = ('inv', sp, name)
    return True

def candf(ex, st, v, sp, k):
    if isinstance(v, bool) or (isinstance(v, T) and v.sort == 'B'):     # flag: equal to "expression is not 0"
        if k < 0: return False
        w = tm.bnot(tm.ieq(callint(ex, st, sp.ce, [sp.arg, k]), 0))
        return tm.bor(tm.band(v, w), tm.band(tm.bnot(v), tm.bnot(w)))
    if k < 0: return tm.ile(0, v)
    return tm.ieq(v, callint(ex, st, sp.ce, [sp.arg, k]))

def proves(ex, st, q):
    if q is False: return False
    if ex.must(st, q) is True: return True
    r = ex.solver.prove(dict(kind='check', label='', pc=list(st.pc), cond=q, data=None), 5)
    return r[0] == 'proved'

def establish(ex, st, base, sp, cands, c0, name, value):
    if c0 is not True:
        ex.obls.append(dict(kind='inv', label='loop invariant of %s established' % name, pc=list(st.pc), cond=c0, where=ex.where(st)[-3:], data=None, info=st.info))

def sigv(v):
    if isinstance(v, T): return ('t', v.id)
    if isinstance(v, SX.Ptr): return ('p', v.obj, v.off if isinstance(v.off, int) else v.off.id)
    if isinstance(v, SX.Fn): return ('f', v.name)
    if isinstance(v, (list, tuple)): return tuple(sigv(x) for x in v)
    return repr(v)

def signature(ex, st, fn, tgt, depth, phis, W, base):
    """everything the continuation can read, except the havocked cells"""
    names, defs = liveslots(fn, tgt)
    inv = fn.info['slots']
    top = st.frames[-1]
    r = []
    for nm in sorted(names):
        i = inv.get(nm)
        if i is None or i in phis or nm in defs: continue
        r.append((nm, sigv(top.env[i])))
    for f in st.frames[:-1]:
        r.append((f.fn.name, f.bb, f.ip, tuple(sigv(x) for x in f.env)))
    g = set((o, k) for o, k, s in W)
    for oid in sorted(st.mem):
        o = st.mem[oid]
        if o.freed: continue
        cs = tuple((k, c[0], sigv(c[1])) for k, c in sorted(o.cells.items(), key=lambda x: x[0]) if (oid, k) not in g)
        r.append((oid, cs, None if o.log is None else id(o.log)))
    r.append(sigv(tuple(st.info.get('choices', ()))))
    global LAST; LAST = r
    return hash(repr(r))
