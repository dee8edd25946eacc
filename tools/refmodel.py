"""spec/Refcount.tla: concurrent reference counting of a pool; interleavings executed by harness/ref_replay.cpp"""
from gmodel import *
CMDS = dict(StartCopy=1, StartDrop=2, Access=3)
INV = ['ReleasedOnce', 'LiveWhileHeld', 'GoneAtEnd', 'CountExact']
LEGEND = 'command, thread | 1: the pool exists, 2: it is gone, 0: either'
def run(chk):
    LIBS = [REPO + '/src/posix/stack_traits.cpp']
    def build(name):
        if name == 'ref-sched':
            return compile_to(SCRATCH + '/ref-sched', [HARNESS + '/ref_replay.cpp'] + LIBS,
                              BASE + ['-std=c++17', '-O1', '-g1', '-DSCHED', '-Wl,--wrap=malloc', '-Wl,--wrap=free'])
        if name == 'ref-sched11':
            return compile_to(SCRATCH + '/ref-sched11', [HARNESS + '/ref_replay.cpp'] + LIBS,
                              BASE + ['-std=c++11', '-O1', '-g1', '-DSCHED', '-DBOOST_CONTEXT_USE_MAP_STACK', '-Wl,--wrap=malloc', '-Wl,--wrap=free'])
        return compile_to(SCRATCH + '/ref-tsan', [HARNESS + '/ref_replay.cpp'] + LIBS, BASE + ['-std=c++17', '-O1', '-g1', '-fsanitize=thread'])
    consts = dict(NT=2, K=2, MaxOps=2, MaxHold=2, MaxCmds=100, Cmds=['StartCopy', 'StartDrop', 'Access'])
    c3 = dict(NT=3, K=2, MaxOps=1, MaxHold=1, MaxCmds=100, Cmds=['StartCopy', 'StartDrop', 'Access'])
    r = dict(NT=3, K=3, MaxOps=6, MaxHold=3, MaxCmds=300)
    w = dict(StartCopy=2, StartDrop=3, Access=6)
    with ThreadPoolExecutor(NCPU) as pool:
        b = {v: pool.submit(build, v) for v in ('ref-sched', 'ref-sched11', 'ref-tsan')}
        g = [(c, pool.submit(g_all, 'Refcount', c, INV)) for c in ((consts, c3) if not THOROUGH else (consts, c3, dict(consts, K=1, MaxOps=3)))]
        g.append((r, pool.submit(g_random, 'Refcount', r, w, 20000 if THOROUGH else 1000, SEED * 10 + 9, INV)))
        try: exe = {v: f.result() for v, f in b.items()}
        except BuildFailed as e:
            chk.violation('build ' + os.path.basename(e.what), 'a supported configuration does not compile:\n' + e.out[-3000:], {'compiler.txt': e.out})
            return
        res = [(c, f.result()) for c, f in g]
    for c, (paths, st) in res:
        chk.add('states', st['states']); chk.add('transitions', st['generated'])
        chk.extra.setdefault('generation', []).append(dict(spec='Refcount', constants=cfg_consts(c).strip(), behaviours=len(paths)))
        chk.sample(g_pretty(paths[len(paths) // 2][:16]), most=10)
    for c, (paths, st) in res:
        for v in ('ref-sched', 'ref-sched11'):
            g_replay(chk, exe[v], v, {}, [c['NT'], c['K']], paths, CMDS, None, legend=LEGEND, source='ref_replay.cpp')
        env = {'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:handle_segv=0'}
        seen, few = set(), []
        for p in paths:       # free running: the program of each thread is what counts
            k = tuple(tuple(st[0] for st in p if st[1] == t and st[0] != 'Access') for t in range(1, c['NT'] + 1))
            if k not in seen: seen.add(k); few.append(p)
        g_replay(chk, exe['ref-tsan'], 'ref-tsan', env, [c['NT'], c['K']], few[:400], CMDS, None, timeout=60, legend=LEGEND, source='ref_replay.cpp')
        if chk.violations: return
