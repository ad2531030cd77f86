"""Rebuild LLVM IR and native objects from /repo's current working tree."""
import os, subprocess, sys, glob, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP = ['-std=c++11', '-DTEMPEST_MPIOMP', '-DTEMPEST_LAPACK_FORTRAN_INTERFACE', '-DTEMPEST_NETCDF',
       '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
       '-I%s/src/base' % REPO, '-I%s/src/atm' % REPO, '-I%s/contracts' % VERIF, '-I%s/engine' % VERIF]
IRF = ['-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-O1', '-Xclang', '-disable-llvm-passes',
       '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-S', '-emit-llvm', '-fno-access-control']
NJ = 8

class BuildError(Exception):
    pass

def tool(n):
    for c in (n + '-18', n):
        p = shutil.which(c)
        if p: return p
    raise BuildError('missing tool ' + n)

def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r

def sources():
    return sorted(glob.glob(REPO + '/src/base/*.cpp') + glob.glob(REPO + '/src/atm/*.cpp'))

def build_ir(out, contract_files):
    os.makedirs(out, exist_ok=True)
    cx = tool('clang++')
    jobs = []
    jobs.append((os.path.join(VERIF, 'engine', 'vp_inst.cpp'), os.path.join(out, 'vp_inst.bc')))
    for s in sources(): jobs.append((s, os.path.join(out, 'lib_' + os.path.basename(s) + '.bc')))
    cj = []
    for s in contract_files: cj.append((os.path.join(VERIF, 'contracts', s), os.path.join(out, 'c_' + s + '.bc')))
    fl = [f for f in IRF if f != '-S'] + ['-c']
    def one(j):
        r = subprocess.run([cx] + CPP + fl + [j[0], '-o', j[1]], capture_output=True, text=True)
        return r.returncode, j, r.stderr
    with ThreadPoolExecutor(NJ) as ex: res = list(ex.map(one, cj + jobs))
    bad = [(j, e) for rc, j, e in res if rc]
    cset = set(j for j in cj)
    lbad = [(j, e) for j, e in bad if j not in cset]
    if lbad:
        raise BuildError('\n'.join('%s: %s' % (j[0], e[-1500:]) for j, e in lbad))
    failed = {os.path.basename(j[0]): e for j, e in bad}
    allbc = os.path.join(out, 'all.bc')
    # duplicate mains etc. do not exist in the two library folders
    sh([tool('llvm-link')] + [j[1] for j in jobs] + ['-o', allbc])
    return allbc, {s: j[1] for s, j in zip(contract_files, cj) if s not in failed}, failed

def link_contract(out, allbc, cbc, entries):
    """module with only what the entries reach"""
    ln = cbc + '.linked.bc'
    ll = cbc + '.ll'
    sh([tool('llvm-link'), cbc, allbc, '-o', ln])
    sh([tool('opt'), '-passes=internalize,globaldce,function(sroa,simplifycfg,early-cse)', '-internalize-public-api-list=' + ','.join(entries),
        ln, '-S', '-o', ll])
    return ll

NLIB = ['-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmpi_cxx', '-lmpi', '-lnetcdf', '-llapack', '-lblas', '-ldl', '-lm']

def build_native_lib(out):
    d = os.path.join(out, 'native'); os.makedirs(d, exist_ok=True)
    jobs = [(s, os.path.join(d, os.path.basename(s) + '.o')) for s in sources()]
    def one(j):
        r = subprocess.run(['g++'] + CPP + ['-O1', '-g0', '-w', '-fno-inline-functions', '-c', j[0], '-o', j[1]], capture_output=True, text=True)
        return r.returncode, j, r.stderr
    with ThreadPoolExecutor(NJ) as ex: res = list(ex.map(one, jobs))
    bad = [(j, e) for rc, j, e in res if rc]
    if bad: raise BuildError('\n'.join('%s: %s' % (j[0], e[-1500:]) for j, e in bad))
    return [j[1] for j in jobs]

def build_native(out, libobjs, cfile):
    import re
    d = os.path.join(out, 'native_' + cfile); os.makedirs(d, exist_ok=True)
    src = os.path.join(VERIF, 'contracts', cfile)
    txt = open(src).read()
    reps = re.findall(r'vp_replace\(\s*"([^"]+)"\s*,\s*(?:\(void\s*\(\*\)\(\)\)\s*)?&?(\w+)', txt)
    objs = list(libobjs)
    o = os.path.join(d, 'c.o'); rt = os.path.join(d, 'rt.o')
    sh(['g++'] + CPP + ['-O0', '-w', '-fno-access-control', '-DVP_NATIVE', '-c', src, '-o', o])
    sh(['g++'] + CPP + ['-O0', '-w', '-c', os.path.join(VERIF, 'engine', 'vp_native.cpp'), '-o', rt])
    if reps:
        weak = []
        for cal, stub in reps: weak += ['--weaken-symbol=' + cal]
        nobjs = []
        def wk(x):
            y = os.path.join(d, 'w_' + os.path.basename(x))
            sh(['objcopy'] + weak + [x, y])
            return y
        with ThreadPoolExecutor(NJ) as ex: nobjs = list(ex.map(wk, objs))
        objs = nobjs
        red = []
        for cal, stub in reps: red += ['--weaken-symbol=' + cal]
        sh(['objcopy'] + red + [o])
        al = os.path.join(d, 'alias.s')
        with open(al, 'w') as f:
            for cal, stub in dict(reps).items():
                f.write('.globl %s\n.type %s, @function\n%s:\n\tjmp %s\n' % (cal, cal, cal, stub))
        sh(['as', al, '-o', os.path.join(d, 'alias.o')])
        objs = [os.path.join(d, 'alias.o')] + objs
    exe = os.path.join(d, 'run')
    sh(['g++', '-rdynamic', o, rt] + objs + ['-o', exe] + NLIB)
    return exe
