"""spec/Fctx.tla: the low-level interface; behaviours replayed by harness/fctx_replay.cpp"""
from gmodel import *

CMDS = {n: i + 1 for i, n in enumerate(['Make', 'Jump', 'Ontop', 'OntopReturn', 'Call', 'Pop', 'SetEnv', 'Finish'])}
INV = ['OneRunning', 'StackShape']
PRP = ['Frozen', 'Delivered', 'EnvLocal']
LIB = ASM + [REPO + '/src/fcontext.cpp']
N = ['-fno-stack-protector']
VAR = {
    'fctx':         ['-std=c++17', '-O2'],
    'fctx-O0':      ['-std=c++11', '-O0'],
    'fctx-nocet':   ['-std=c++11', '-O2', '-fcf-protection=none'],
    'fctx-ssp':     ['-std=c++11', '-O2', '-DBOOST_CONTEXT_TLS_STACK_PROTECTOR', '-DCHECK_GUARD'],
    'fctx-ssp-O0':  ['-std=c++11', '-O0', '-DBOOST_CONTEXT_TLS_STACK_PROTECTOR', '-DCHECK_GUARD'],
    'fctx-tsx':     ['-std=c++11', '-O2', '-DBOOST_USE_TSX'],
}
LEGEND = 'command target handle data | running context, frames, environment, delivery (1 enter 2 return 3 on top, from, data)'
GEN = {'control', 'event', 'data', 'handle', 'alignment', 'bounds', 'locals', 'crash', 'hang'}
CLS = dict(C19=GEN | {'registers', 'fp', 'guard'}, C03=GEN | {'registers'}, C04=GEN | {'fp'}, C22=GEN | {'guard'})

def run(chk):
    prop = chk.prop
    light = prop != 'C19'
    variants = dict(C19=list(VAR), C03=['fctx', 'fctx-O0', 'fctx-nocet', 'fctx-ssp'], C04=['fctx', 'fctx-O0', 'fctx-ssp'],
                    C22=['fctx-ssp', 'fctx-ssp-O0'])[prop]
    allc = ['Make', 'Jump', 'Ontop', 'OntopReturn', 'Call', 'Pop', 'SetEnv', 'Finish']
    exs = [dict(NC=3, ND=2, NE=2, MaxDepth=2, MaxCmds=8 if THOROUGH else 6, TSX=False, Cmds=allc)]
    if not light: exs.append(dict(NC=3, ND=1, NE=1, MaxDepth=3, MaxCmds=11 if THOROUGH else 8, TSX=False,
                                  Cmds=['Make', 'Jump', 'Ontop', 'OntopReturn', 'Call', 'Pop']))
    num = (20000 if THOROUGH else 1000) if not light else (4000 if THOROUGH else 300)
    w = dict(Make=3, Jump=8, Ontop=5, OntopReturn=4, Call=2, Pop=2, SetEnv=4)
    rnd = dict(NC=5, ND=6, NE=5, MaxDepth=6, MaxCmds=60, TSX=False)
    jobs = [(x, lambda x=x: g_exhaustive('Fctx', x, INV, PRP)) for x in exs]
    jobs.append((rnd, lambda: g_random('Fctx', rnd, w, num, SEED * 10 + 3, INV)))
    if 'fctx-tsx' in variants:
        t = dict(exs[0], TSX=True); jobs.append((t, lambda: g_exhaustive('Fctx', t, INV, PRP)))
        tr = dict(rnd, TSX=True); jobs.append((tr, lambda: g_random('Fctx', tr, w, num // 4, SEED * 10 + 4, INV)))
    def build(v):
        return compile_to('%s/%s' % (SCRATCH, v), [HARNESS + '/fctx_replay.cpp'] + LIB, BASE + VAR[v] + N)
    with ThreadPoolExecutor(NCPU) as pool:
        b = {v: pool.submit(build, v) for v in variants}
        g = [pool.submit(j[1]) for j in jobs]
        try: exe = {v: f.result() for v, f in b.items()}
        except BuildFailed as e:
            chk.violation('build ' + os.path.basename(e.what), 'a supported configuration does not compile:\n' + e.out[-3000:], {'compiler.txt': e.out})
            return
        res = [f.result() for f in g]
    for (c, _), (paths, st) in zip(jobs, res):
        chk.add('states', st['states']); chk.add('transitions', st['generated'])
        chk.extra.setdefault('generation', []).append(dict(spec='Fctx', constants=cfg_consts(c).strip(), behaviours=len(paths),
            transitions_covered=st.get('merged_transitions', 0)))
        chk.sample(g_pretty(paths[len(paths) // 2][:12]), most=8)
    for v in variants:
        for (c, _), (paths, st) in zip(jobs, res):
            if c['TSX'] != (v == 'fctx-tsx'): continue
            g_replay(chk, exe[v], v, {}, [c['NC'], int(c['TSX'])], paths, CMDS, CLS[prop], legend=LEGEND, source='fctx_replay.cpp')
            if chk.violations: return
