"""Check driver: vp run <property> [quick|thorough]"""
import sys, os, time, json, subprocess, multiprocessing, traceback, tempfile, shutil, re, signal, resource
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
import build

MODS = {}

def valname(x):
    if isinstance(x, tuple):
        if x[0] == 'sel': return '%s[%d]' % (x[1], x[2])
        return None
    if x.op == 'sel': return '%s[%s]' % (x.args[0], x.args[1]) if isinstance(x.args[1], int) else None
    return x.args[0]

def valstr(v):
    if isinstance(v, bool): return '1' if v else '0'
    if isinstance(v, int): return str(v)
    return '%.17g' % float(v)

def task_run(a):
    """executed in a forked worker"""
    t = a
    import sx, solve, term
    t0 = time.time()
    res = dict(task=t, obls=[], status='ok', unsupported=[], notes=[], assumed=[], used={}, reached={}, paths=0, throws=0)
    try:
        mod = MODS[t['file']]
        sv = solve.Solver(ms=t.get('feas_ms', 400))
        ex = sx.Engine(mod, sv, dict(choices=t.get('choices', {}), max_paths=t.get('max_paths', 20000)))
        if t.get('overflow'): ex.overflow = t['overflow']
        ex.deadline = t0 + t.get('exec_s', 120)
        ends = []
        try:
            fin = ex.run_entry(t['entry'])
            ends = fin
        except term.Unsupported as e:
            res['unsupported'].append(str(e))
        except RecursionError as e:
            res['unsupported'].append('recursion')
        for (s, st) in ends:
            if s[0] == 'unsupported': pass
            elif s[0] == 'throw':
                # uncaught exception out of the contract entry
                o = dict(kind='throw', label='no exception escapes', pc=st.pc, cond=False, where=[str(s[1])], data=None)
                o['info'] = st.info
                ex.obls.append(o)
            elif s[0] in ('ret',): res['paths'] += 1
        res['unsupported'] += sorted(set('%s @ %s' % (m, '/'.join(w[-2:])) for m, w in ex.unsupported))
        res['throws'] = ex.nthrow
        seen = {}
        tprove = time.time()
        pdead = t0 + t.get('total_s', 400)
        refuted = 0
        for o in ex.obls:
            c = o['cond']
            if c is True:
                res['obls'].append((o['kind'], o['label'], 'proved', 'trivial', 0.0, None)); continue
            key = (o['label'], o['kind'], frozenset(p.id for p in o['pc']), c.id if isinstance(c, term.T) else c,
                   tuple(x.id if isinstance(x, term.T) else x for x in (o.get('data') or ())))
            if key in seen:
                continue
            t1 = time.time()
            if t1 > pdead or refuted >= 4:
                r = ('unknown', 'budget', None) if refuted < 4 else ('skipped', 'after-refutation', None)
            else:
                try:
                    r = sv.prove(o, t.get('budget', 30))
                except term.Unsupported as e:
                    r = ('unknown', 'unsupported: %s' % e, None)
            seen[key] = r[0]
            mv = None
            if r[0] == 'refuted':
                refuted += 1
                mv = {}
                for k, v in (r[2] or {}).items():
                    n = valname(k)
                    if n is not None:
                        try: mv[n] = valstr(v)
                        except (OverflowError, ValueError): pass
                for n, v in (o.get('info') or {}).get('choices', ()): mv[n] = str(v)
                for p in ():
                    pass
            det = None
            if r[0] != 'proved':
                det = dict(where=o['where'], cond=str(c)[:2000], pc=[str(p)[:300] for p in o['pc'][:40]], model=mv)
            res['obls'].append((o['kind'], o['label'], r[0], r[1], time.time() - t1, det))
        res['used'] = {k: v for k, v in ex.used.items()}
        res['notes'] = sorted(ex.notes); res['assumed'] = sorted(ex.assumed)
        res['stubs'] = sorted(ex.stubs)
        res['reached'] = ex.reached
        res['stat'] = sv.stat
        res['loops'] = getattr(ex, 'loopsum', {})
    except Exception as e:
        res['status'] = 'error'; res['error'] = traceback.format_exc()
    res['wall'] = time.time() - t0
    return res

def _wrap(q, t):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception: pass
    try:
        q.put(task_run(t))
    except BaseException as e:
        q.put(dict(task=t, obls=[], status='error', error=repr(e), unsupported=[], notes=[], assumed=[], used={}, reached={}, paths=0, throws=0, wall=0))

def run_tasks(tasks, nproc, limit):
    """each task in its own forked process with a hard time limit"""
    pend = list(tasks); live = []; out = []
    while pend or live:
        while pend and len(live) < nproc:
            t = pend.pop(0)
            q = multiprocessing.SimpleQueue()
            p = multiprocessing.Process(target=_wrap, args=(q, t)); p.start()
            live.append((p, q, t, time.time()))
        nl = []
        for p, q, t, t0 in live:
            if not q.empty():
                out.append(q.get()); p.join(5)
                if p.is_alive(): p.kill()
            elif not p.is_alive():
                time.sleep(0.05)
                if not q.empty(): out.append(q.get())
                else: out.append(dict(task=t, obls=[], status='error', error='worker died (memory or crash)', unsupported=[], notes=[], assumed=[], used={}, reached={}, paths=0, throws=0, wall=time.time() - t0))
            elif time.time() - t0 > t.get('total_s', 400) + limit:
                p.kill(); p.join()
                out.append(dict(task=t, obls=[], status='timeout', error='hard time limit', unsupported=['time limit'], notes=[], assumed=[], used={}, reached={}, paths=0, throws=0, wall=time.time() - t0))
            else: nl.append((p, q, t, t0))
        live = nl
        time.sleep(0.01)
    return out

def load_known():
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                m = re.match(r'known: property=(\S+) entry=(\S+) label="([^"]*)"\s*(?:choices=(\S+))?\s*(.*)', l)
                if m: known.append(dict(prop=m.group(1), entry=m.group(2), label=m.group(3), choices=m.group(4), text=m.group(5)))
    return known

class Native(object):
    def __init__(self, out):
        self.out = out; self.lib = None; self.exe = {}
    def get(self, cfile):
        if self.lib is None: self.lib = build.build_native_lib(self.out)
        if cfile not in self.exe: self.exe[cfile] = build.build_native(self.out, self.lib, cfile)
        return self.exe[cfile]
    def run(self, cfile, args, timeout=120):
        exe = self.get(cfile)
        env = dict(os.environ); env['OMPI_ALLOW_RUN_AS_ROOT'] = '1'; env['OMPI_ALLOW_RUN_AS_ROOT_CONFIRM'] = '1'
        d = tempfile.mkdtemp(prefix='vpn')
        try:
            r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, env=env, cwd=d, errors='replace')
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            return 124, 'VPFAIL timeout | native run did not terminate\n'
        finally:
            shutil.rmtree(d, ignore_errors=True)

def main(prop, tier):
    import registry
    t00 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = registry.PROPS[prop]
    out = tempfile.mkdtemp(prefix='vp_%s_' % prop, dir=os.environ.get('VP_TMP', '/tmp'))
    try:
        return main2(prop, tier, P, out, seed, t00)
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(out, ignore_errors=True)
        else: print('build kept in', out)

def main2(prop, tier, P, out, seed, t00):
    import ir as IR
    only = os.environ.get('VP_ONLY')
    ents = [e for e in P['entries'] if tier == 'thorough' or not e.get('thorough_only')]
    if only: ents = [e for e in ents if re.search(only, e['entry'])]
    files = sorted(set(e['file'] for e in ents))
    try:
        allbc, cb, cfail = build.build_ir(out, files)
        if len(cfail) == len(files): raise build.BuildError('no contract file compiles against the tree:\n' + '\n'.join(cfail.values()))
    except build.BuildError as e:
        msg = str(e)
        print('BUILD', msg[-3000:])
        return finish_builderror(prop, tier, seed, P, msg, t00)
    from concurrent.futures import ThreadPoolExecutor
    def lk(f):
        return f, build.link_contract(out, allbc, cb[f], [e['entry'] for e in ents if e['file'] == f])
    badents = [e for e in ents if e['file'] in cfail]
    ents = [e for e in ents if e['file'] not in cfail]
    files = [f for f in files if f not in cfail]
    with ThreadPoolExecutor(4) as tp: lls = dict(tp.map(lk, files))
    for f in files: MODS[f] = IR.parse_module(lls[f])
    tb = time.time() - t00
    tasks = []
    for e in ents:
        base = dict(entry=e['entry'], file=e['file'])
        for k in ('budget', 'exec_s', 'total_s', 'max_paths', 'feas_ms', 'overflow'):
            if k in e: base[k] = e[k]
        if tier == 'thorough':
            base['budget'] = e.get('budget', 30) * 4; base['total_s'] = e.get('total_s', 400) * 4; base['exec_s'] = e.get('exec_s', 120) * 4
        combos = []
        sp = e.get('split') or {}
        if tier == 'thorough' and e.get('split_thorough'): sp = e['split_thorough'] if isinstance(sp, list) or isinstance(e['split_thorough'], list) else dict(sp, **e['split_thorough'])
        for s1 in (sp if isinstance(sp, list) else [sp]):
            cs = [{}]
            for nm, vals in s1.items(): cs = [dict(c, **{nm: [v]}) for c in cs for v in vals]
            combos += cs
        for c in combos:
            tasks.append(dict(base, choices=c))
    tasks.sort(key=lambda t: -next(e.get('weight', 1) for e in ents if e['entry'] == t['entry']))
    results = run_tasks(tasks, int(os.environ.get('VP_JOBS', '8')), 30)
    # ------------------------------------------------------------ judge
    known = [k for k in load_known() if k['prop'] == prop]
    nat = Native(out)
    nobl = ndis = 0
    backends = {}; solver_s = dict(z3=0.0, cvc5=0.0, cas=0.0)
    funcs = {}; assumed = set(); notes = set()
    viol = []; kf = []; incon = []; per = {}
    for r in results:
        t = r['task']; ename = t['entry']
        pe = per.setdefault(ename, dict(obligations=0, discharged=0, paths=0, tasks=0, inconclusive=[], wall=0.0, reached={}, refuted=0))
        pe['tasks'] += 1; pe['paths'] += r['paths']; pe['wall'] += r.get('wall', 0)
        for k, v in r['reached'].items(): pe['reached'][k] = pe['reached'].get(k, 0) + v
        if r['status'] != 'ok': pe['inconclusive'].append(r.get('error', r['status'])[-1500:])
        for u in r['unsupported']: pe['inconclusive'].append('unsupported: ' + u)
        for k, v in r['used'].items(): funcs[k] = funcs.get(k, 0) + v
        assumed |= set(r['assumed']); notes |= set(r['notes'])
        st = r.get('stat') or {}
        solver_s['z3'] += st.get('z3time', 0); solver_s['cvc5'] += st.get('cvc5time', 0); solver_s['cas'] += st.get('castime', 0)
        for (kind, label, status, be, dt, det) in r['obls']:
            nobl += 1; pe['obligations'] += 1
            if status == 'proved':
                ndis += 1; pe['discharged'] += 1
                backends[be] = backends.get(be, 0) + 1
            elif status == 'refuted':
                pe['refuted'] += 1
                viol.append(dict(entry=ename, file=t['file'], kind=kind, label=label, detail=det, backend=be, choices=t.get('choices'), stubs=r.get('stubs')))
            elif status == 'unknown':
                pe['inconclusive'].append('obligation "%s" undecided by %s: %s' % (label, be, (det or {}).get('cond', '')[:300]))
    for e in badents:
        per[e['entry']] = dict(obligations=0, discharged=0, paths=0, tasks=0, inconclusive=['contract does not compile against this tree: ' + cfail[e['file']][-400:]], wall=0.0, reached={}, refuted=0)
    # vacuity
    texts = {f: open(os.path.join(VERIF, 'contracts', f)).read() for f in files}
    for e in ents:
        pe = per.get(e['entry'])
        if pe is None: continue
        if not pe['inconclusive'] and not pe['refuted']:
            if pe['obligations'] == 0 or pe['paths'] == 0:
                pe['inconclusive'].append('vacuous: %d obligations on %d completed paths' % (pe['obligations'], pe['paths']))
            for lab in e.get('reach', []):
                if not pe['reached'].get(lab): pe['inconclusive'].append('vacuous: point %s not reached' % lab)
    # replay
    rdir = os.path.join(VERIF, 'replays'); 
    reported = []
    dedup = set()
    for v in viol:
        k = (v['entry'], v['label'])
        if k in dedup: continue
        kn = [x for x in known if x['entry'] == v['entry'] and x['label'] == v['label']]
        if kn:
            ch = (v['detail'] or {}).get('model') or {}
            ok = False
            for x in kn:
                if not x['choices'] or all(ch.get(a.split('=')[0]) == a.split('=')[1] for a in x['choices'].split(',')):
                    ok = True; kf.append((prop, x['text']))
            if ok: continue
        os.makedirs(rdir, exist_ok=True)
        n = len(reported)
        rp = os.path.join(rdir, '%s-%d.json' % (prop, n))
        vals = (v['detail'] or {}).get('model') or {}
        vp = os.path.join(rdir, '%s-%d.vals' % (prop, n))
        with open(vp, 'w') as f:
            for a, b in sorted(vals.items()): f.write('%s %s\n' % (a.replace(' ', '_'), b))
        confirmed = False; outp = ''
        pure = v['kind'] in ('check', 'eq', 'eqtol', 'throw', 'div', 'cast', 'ovf')
        try:
            rc, outp = nat.run(v['file'], ['--entry', v['entry'], '--replay', vp], 90)
            confirmed = rc != 0 and 'VPFAIL' in outp
            if not confirmed:
                fx = []
                for a, b in (v.get('choices') or {}).items(): fx += ['--fix', '%s=%s' % (a, ','.join(map(str, b)))]
                rc, o2 = nat.run(v['file'], ['--entry', v['entry'], '--seconds', '15', '--runs', '100000', '--seed', str(seed)] + fx, 90)
                if rc != 0 and 'VPFAIL' in o2:
                    confirmed = True; outp += o2
                    vv = re.findall(r'^VPVAL (\S+) (\S+)$', o2, re.M)
                    with open(vp, 'w') as f:
                        for a, b in vv: f.write('%s %s\n' % (a, b))
                    vals = dict(vv)
        except build.BuildError as e:
            outp = 'native build failed: ' + str(e)[-800:]
        abstract = bool(v.get('stubs')) or v['kind'] in ('mem', 'undef', 'abort', 'trap', 'loop')
        rec = dict(property=prop, entry=v['entry'], file='contracts/' + v['file'], obligation=v['label'], kind=v['kind'], backend=v['backend'],
                   values=vals, failed_condition=(v['detail'] or {}).get('cond'), path_condition=(v['detail'] or {}).get('pc'),
                   where=(v['detail'] or {}).get('where'), confirmed_on_real_code=confirmed, native_output=outp[-3000:],
                   how_to_replay='python3 /verif/engine/run.py replay %s' % rp)
        with open(rp, 'w') as f: json.dump(rec, f, indent=1)
        if confirmed or abstract:
            dedup.add(k)
            reported.append((rp, confirmed, v))
        else:
            per[v['entry']]['inconclusive'].append('obligation "%s" refuted by %s but the countermodel does not reproduce natively' % (v['label'], v['backend']))
            per[v['entry']]['unconfirmed'] = True
    # bounded stand-in for inconclusive entries
    bounded = {}
    for e in ents:
        pe = per.get(e['entry'])
        if pe and pe['inconclusive'] and not any(x[2]['entry'] == e['entry'] for x in reported):
            try:
                rc, o = nat.run(e['file'], ['--entry', e['entry'], '--seconds', '10' if tier == 'quick' else '60', '--runs', '2000000', '--seed', str(seed)], 120)
            except build.BuildError as x:
                rc, o = 0, 'native build failed ' + str(x)[-500:]
            bounded[e['entry']] = o.strip().split('\n')[-1]
            if rc != 0 and 'VPFAIL' in o:
                lab = re.search(r'VPFAIL ([^|]*) \|', o)
                lab = lab.group(1) if lab else '?'
                if any(x['entry'] == e['entry'] and x['label'] == lab for x in known):
                    kf.append((prop, [x for x in known if x['entry'] == e['entry'] and x['label'] == lab][0]['text']))
                else:
                    os.makedirs(rdir, exist_ok=True)
                    n = len(reported)
                    rp = os.path.join(rdir, '%s-b%d.json' % (prop, n)); vpth = os.path.join(rdir, '%s-b%d.vals' % (prop, n))
                    vv = re.findall(r'^VPVAL (\S+) (\S+)$', o, re.M)
                    with open(vpth, 'w') as f:
                        for a, b in vv: f.write('%s %s\n' % (a, b))
                    with open(rp, 'w') as f:
                        json.dump(dict(property=prop, entry=e['entry'], file='contracts/' + e['file'], obligation=lab, kind='bounded-native', values=dict(vv),
                                       confirmed_on_real_code=True, native_output=o[-3000:], why_bounded=pe['inconclusive'][:5],
                                       how_to_replay='python3 /verif/engine/run.py replay %s' % rp), f, indent=1)
                    reported.append((rp, True, dict(entry=e['entry'], label=lab)))
    # ------------------------------------------------------------ evidence
    dem = demangle([f for f in funcs])
    repo_funcs = sorted(set(d for m, d in dem.items() if not d.startswith(('std::', '__gnu', 'vc_', 'operator', 'void std::')) and 'std::' not in d.split('(')[0] and '__gnu_cxx' not in d.split('(')[0]))
    allproved = not reported and not kf and all(not p['inconclusive'] for p in per.values())
    trusted = ['clang 18 front end and opt passes sroa/simplifycfg/early-cse on the real sources', 'engine/ LLVM IR symbolic semantics (sx.py, externs.py)',
               'z3 5.x, cvc5 1.1.2, rational-function normal form engine/poly.py']
    assumptions = sorted(assumed) + ['symbolic doubles are treated as mathematical reals (rounding, overflow and NaN not modelled); concrete arithmetic is IEEE',
                                      'algebraic identities are decided where the code\'s own denominators do not vanish'] + sorted('note: ' + n for n in notes) + list(P.get('assumptions', []))
    ev = dict(property=prop, tier=tier, seed=seed, level=P['level'],
              coverage=dict(obligations=nobl, discharged=ndis, checker_cmd='python3 engine/run.py check %s %s' % (prop, tier), trusted_base=trusted,
                            explanation=P.get('explanation', ''),
                            by_backend=backends, solver_seconds={k: round(v, 2) for k, v in solver_s.items()},
                            functions_under_contract=P.get('functions', []), functions_executed=repo_funcs,
                            contracts={k: dict(obligations=v['obligations'], discharged=v['discharged'], paths=v['paths'], seconds=round(v['wall'], 1),
                                               reached=v['reached'],
                                               scope=next((e.get('bounded') and 'bounded: ' + e['bounded'] or 'all inputs of the stated precondition') for e in ents + badents if e['entry'] == k),
                                               inconclusive=v['inconclusive'][:6]) for k, v in per.items()},
                            bounded_standins=bounded, build_seconds=round(tb, 1)),
              assumptions=assumptions, wall_s=round(time.time() - t00, 2), violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k, v in sorted(per.items()):
        print('%-44s obl %5d/%-5d paths %5d  %.1fs %s' % (k, v['discharged'], v['obligations'], v['paths'], v['wall'], ('INCONCLUSIVE ' + '; '.join(v['inconclusive'])[:int(os.environ.get('VP_MSG', '300'))] + ' bounded stand-in: ' + bounded.get(k, '-')) if v['inconclusive'] else ''))
    print('%s: %d obligations, %d discharged, backends %s, build %.1fs, total %.1fs' % (prop, nobl, ndis, backends, tb, time.time() - t00))
    for p, txt in sorted(set(kf)): print('KNOWN-FINDING: property=%s %s' % (p, txt))
    if reported:
        for rp, conf, v in reported:
            print('failed obligation: %s : %s' % (v['entry'], v['label']))
        for rp, conf, v in reported[:5]:
            print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if conf else ' no-failing-input-found'))
        return 1
    return 0

def finish_builderror(prop, tier, seed, P, msg, t00):
    """the tree (or the contracts against it) does not compile: nothing decided"""
    ev = dict(property=prop, tier=tier, seed=seed, level=P['level'], coverage=dict(obligations=0, discharged=0, checker_cmd='engine/run.py', trusted_base=[], explanation='build failed: ' + msg[-1500:]),
              assumptions=[], wall_s=round(time.time() - t00, 2), violations=0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    return 2

def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return dict(zip(names, r.stdout.split('\n')))
    except Exception:
        return {n: n for n in names}

def replay(path):
    rec = json.load(open(path))
    out = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        n = Native(out)
        vf = os.path.join(out, 'vals')
        with open(vf, 'w') as f:
            for a, b in (rec.get('values') or {}).items(): f.write('%s %s\n' % (a.replace(' ', '_'), b))
        rc, o = n.run(os.path.basename(rec['file']), ['--entry', rec['entry'], '--replay', vf])
        print(o)
        return rc
    finally:
        shutil.rmtree(out, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == 'check': sys.exit(main(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')))
    if sys.argv[1] == 'replay': sys.exit(replay(sys.argv[2]))
