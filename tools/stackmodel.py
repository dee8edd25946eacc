"""spec/StackAlloc.tla: stack allocators; behaviours replayed by harness/alloc_replay.cpp"""
from gmodel import *

ALL = ['MakeAlloc', 'CopyAlloc', 'MoveAlloc', 'DropAlloc', 'Alloc', 'AllocFail', 'Free', 'NewCtx', 'NewCtx0', 'NewCtxFail', 'Start', 'EndCtx', 'DestroyCtx']
CMDS = {n: i + 1 for i, n in enumerate(ALL)}
INV = ['RefsExact', 'PoolOutlivesStacks', 'NoLeak', 'Shape']
PRP = ['FailAtomic', 'OnlyMine']
WRAPS = ['-Wl,' + ','.join('--wrap=' + x for x in ('malloc', 'free', 'posix_memalign', 'calloc', 'realloc', 'aligned_alloc', 'memalign', 'valloc', 'mmap', 'munmap', 'mprotect'))]
MAP = ['-DBOOST_CONTEXT_USE_MAP_STACK']
VAR = {  # name -> (library, flags, kinds)
    'alloc-fib':     (LIB_ASM, ['-std=c++17', '-O2', '-DNDEBUG'], 'FPQ'),
    'alloc-cc':      (LIB_ASM, ['-std=c++11', '-O1', '-DIF_CALLCC'], 'FPQ'),
    'alloc-fib-map': (LIB_ASM, ['-std=c++11', '-O1'] + MAP, 'FPQ'),
    'alloc-uc':      (LIB_UC, ['-std=c++11', '-O1'] + UC, 'FPQ'),
    'alloc-cc-uc':   (LIB_UC, ['-std=c++11', '-O0', '-DIF_CALLCC'] + UC + MAP, 'FPQ'),
    'alloc-fib-traits': (LIB_ASM, ['-std=c++17', '-O1', '-DOWN_TRAITS'], 'FPQ'),
    'alloc-seg':     (LIB_UC, ['-std=c++11', '-O1', '-DBOOST_USE_SEGMENTED_STACKS', '-fsplit-stack'] + UC, 'S'),
}
VG = ['-I' + HARNESS + '/valgrind_stub', '-DBOOST_USE_VALGRIND']
VAR.update({
    'alloc-fib-vg':     (LIB_ASM, ['-std=c++17', '-O1'] + VG, 'FPQ'),
    'alloc-fib-map-vg': (LIB_ASM, ['-std=c++11', '-O1'] + MAP + VG, 'FP'),
    'alloc-cc-vg':      (LIB_ASM, ['-std=c++11', '-O1', '-DIF_CALLCC'] + VG, 'FPQ'),
    'alloc-uc-vg':      (LIB_UC, ['-std=c++11', '-O1'] + UC + VG, 'FPQ'),
})
VAR.update({    # the Windows implementation on the documented API (harness/winapi.cpp)
    'alloc-win':    (LIB_WIN, ['-std=c++17', '-O2', '-DNDEBUG', '-D_WIN32_WINNT=0x0601'] + WIN, 'FPQ'),
    'alloc-cc-win': (LIB_WIN, ['-std=c++11', '-O1', '-DIF_CALLCC', '-D_WIN32_WINNT=0x0501'] + WIN, 'FPQ'),
})
KIND = dict(F=0, P=1, Q=2, S=3)
NAME = dict(F='fixedsize', P='protected_fixedsize', Q='pooled_fixedsize', S='segmented')
LEGEND = ('command, allocator, stack (or second allocator), detail, outcome (1 ok 2 bad_alloc 3 either) | memory held per group | '
          'stacks (0 none 1 raw 2 context not entered 3 context suspended) | their groups | sizes')
CLS = dict(C14={'outcome', 'size', 'disjoint', 'integrity', 'valid', 'release', 'leak', 'bounds', 'control', 'crash', 'hang', 'guard'},
           C15={'outcome', 'size', 'guard', 'leak', 'valid', 'release', 'integrity', 'disjoint', 'control', 'crash', 'hang'},
           C16={'leak', 'valid', 'release', 'integrity', 'disjoint', 'control', 'crash', 'hang', 'outcome', 'size'})
CLS['C10'] = CLS['C16']
CLS['C27'] = {'valgrind', 'crash', 'hang', 'leak', 'release', 'outcome', 'control', 'valid', 'integrity'}
CLS['C28'] = CLS['C14'] | {'winapi'}

def run(chk):
    prop = chk.prop
    kinds = dict(C14='FPQS', C15='P', C16='Q', C10='FPQ', C27='FPQ', C28='FPQ')[prop]
    variants = [v for v in VAR if set(VAR[v][2]) & set(kinds) and v.endswith('-vg') == (prop == 'C27')
                and v.endswith('-win') == (prop == 'C28')]
    if prop == 'C10': variants = ['alloc-fib', 'alloc-uc']
    def exs(pool, cc, huge=True):
        cmds = [x for x in ALL if not (cc and x in ('NewCtx0', 'Start'))]
        L = []
        d = (8 if THOROUGH else 6)
        raw = ['MakeAlloc', 'CopyAlloc', 'MoveAlloc', 'DropAlloc', 'Alloc', 'AllocFail', 'Free']
        ctx = [x for x in cmds if x not in ('AllocFail', 'Free', 'Alloc')]
        if prop in ('C14', 'C15', 'C27', 'C28'): L.append(dict(NA=2, NR=3, NG=2, NSZ=2, Pool=pool, MaxCmds=d, Cmds=raw))
        if prop == 'C16': L.append(dict(NA=3, NR=2, NG=2, NSZ=1, Pool=pool, MaxCmds=d, Cmds=ctx))
        L.append(dict(NA=2, NR=2, NG=1, NSZ=1, Pool=pool, MaxCmds=d, Cmds=cmds))
        return L
    w = dict(MakeAlloc=3, CopyAlloc=2, MoveAlloc=2, DropAlloc=3, Alloc=6, AllocFail=2, Free=4, NewCtx=4, NewCtx0=2, NewCtxFail=1, Start=2, EndCtx=3, DestroyCtx=2)
    num = (6000 if THOROUGH else 300)
    jobs = []
    def job(pool, cc, seg, c, fn): jobs.append((pool, cc, seg, c, fn))
    for pool in sorted({k == 'Q' for k in kinds}):
        for cc in ([False] if prop == 'C10' else [False, True]):
            for c in exs(pool, cc): job(pool, cc, False, c, lambda c=c: g_exhaustive('StackAlloc', c, INV, PRP))
            ww = {k: v for k, v in w.items() if not (cc and k in ('NewCtx0', 'Start'))}
            c = dict(NA=4, NR=5, NG=3, NSZ=2 if pool else 3, Pool=pool, MaxCmds=40)
            job(pool, cc, False, c, lambda c=c, ww=ww, s=len(jobs): g_random('StackAlloc', c, ww, num, SEED * 100 + s, INV, procs=3))
    if 'S' in kinds:
        ww = {k: v for k, v in w.items() if not k.endswith('Fail')}
        c = dict(NA=4, NR=5, NG=3, NSZ=2, Pool=False, MaxCmds=40)
        job(False, False, True, c, lambda c=c: g_random('StackAlloc', c, ww, num, SEED * 100 + 77, INV, procs=3))
        # failures: when it gets no memory libgcc ends the process (known finding)
        cf = dict(NA=1, NR=1, NG=1, NSZ=1, Pool=False, MaxCmds=3, Cmds=['MakeAlloc', 'AllocFail', 'Alloc'])
        job(False, False, True, cf, lambda c=cf: g_exhaustive('StackAlloc', c, INV, PRP))
    def build(v):
        lib, fl, k = VAR[v]
        return compile_to('%s/%s' % (SCRATCH, v), [HARNESS + '/alloc_replay.cpp'] + lib, BASE + fl + WRAPS)
    with ThreadPoolExecutor(NCPU) as pool_:
        b = {v: pool_.submit(build, v) for v in variants}
        g = [pool_.submit(j[4]) for j in jobs]
        try: exe = {v: f.result() for v, f in b.items()}
        except BuildFailed as e:
            chk.violation('build ' + os.path.basename(e.what), 'a supported configuration does not compile:\n' + e.out[-3000:], {'compiler.txt': e.out})
            return
        res = [f.result() for f in g]
    log('behaviours generated')
    for (pool, cc, seg, c, _), (paths, st) in zip(jobs, res):
        chk.add('states', st['states']); chk.add('transitions', st['generated'])
        chk.extra.setdefault('generation', []).append(dict(spec='StackAlloc', constants=cfg_consts(c).strip(), behaviours=len(paths),
            transitions_covered=st.get('merged_transitions', 0)))
        chk.sample(g_pretty(paths[len(paths) // 2][:12]), most=8)
    for v in variants:
        for k in VAR[v][2]:
            if k not in kinds: continue
            for (pool, cc, seg, c, _), (paths, st) in zip(jobs, res):
                if pool != (k == 'Q') or cc != ('-cc' in v) or seg != (k == 'S'): continue
                if cc is False and prop == 'C10' and '-cc' in v: continue
                g_replay(chk, exe[v], v + ' ' + NAME[k], {}, [KIND[k], c['NA'], c['NR'], c['NG']], paths, CMDS, CLS[prop],
                         legend=LEGEND, source='alloc_replay.cpp')
                if chk.violations: return
