"""spec/StackTraits.tla: stack size queries; behaviours executed by harness/traits_replay.cpp"""
from gmodel import *
ALL = ['SetLimit', 'IsUnbounded', 'Maximum', 'Race', 'Page', 'Default', 'Minimum', 'UseMin', 'UseDefault']
CMDS = {n: i + 1 for i, n in enumerate(ALL)}
LEGEND = 'command, thread, limit index (0 unlimited), soft limit index'
WRAPS = ['-Wl,' + ','.join('--wrap=' + x for x in ('getrlimit', 'getrlimit64', 'sysconf', 'getpagesize'))]
NOW = ['-Wl,-z,now']
VAR = { 'traits': (LIB_ASM, ['-std=c++11', '-O2', '-DNDEBUG'], None), 'traits-dbg': (LIB_ASM, ['-std=c++17', '-O0'], None),
        'traits-uc': (LIB_UC, ['-std=c++11', '-O1'] + UC, None),
        'traits-asan': (LIB_UC, ['-std=c++17', '-O1', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-DBOOST_USE_UCONTEXT'], None),
        'traits-tsan': (LIB_ASM, ['-std=c++11', '-O1', '-g1', '-fsanitize=thread'], 'Race') }
TSAN = {'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:handle_segv=0'}
VAR_WIN = { 'traits-win': (LIB_WIN, ['-std=c++11', '-O2', '-DNDEBUG', '-D_WIN32_WINNT=0x0601'] + WIN, None) }
def run(chk):
    win = chk.prop == 'C28'
    VAR = VAR_WIN if win else globals()['VAR']
    w = dict(SetLimit=3, IsUnbounded=3, Maximum=3, Race=1, Page=1, Default=1, Minimum=1, UseMin=1, UseDefault=1)
    ex = dict(NL=7, NT=2, MaxCmds=9 if THOROUGH else 5 if win else 6, Cmds=ALL, Limitless=win)
    rd = dict(NL=7, NT=2, MaxCmds=14, Limitless=win)
    def build(v):
        lib, fl, _ = VAR[v]
        return compile_to(SCRATCH + '/' + v, [HARNESS + '/traits_replay.cpp'] + lib, BASE + fl + NOW + WRAPS)
    with ThreadPoolExecutor(NCPU) as pool:
        b = {v: pool.submit(build, v) for v in VAR}
        g = [(ex, pool.submit(g_exhaustive, 'StackTraits', ex, ['Sane'], ['Constant', 'Answers'])),
             (rd, pool.submit(g_random, 'StackTraits', rd, w, 20000 if THOROUGH else 300 if win else 1500, SEED * 10, ['Sane']))]
        try: exe = {v: f.result() for v, f in b.items()}
        except BuildFailed as e:
            chk.violation('build ' + os.path.basename(e.what), 'a supported configuration does not compile:\n' + e.out[-3000:], {'compiler.txt': e.out})
            return
        res = [(c, f.result()) for c, f in g]
    for c, (paths, st) in res:
        chk.add('states', st['states']); chk.add('transitions', st['generated'])
        chk.extra.setdefault('generation', []).append(dict(spec='StackTraits', constants=cfg_consts(c).strip(), behaviours=len(paths),
            transitions_covered=st.get('merged_transitions', 0)))
        chk.sample(g_pretty(paths[len(paths) // 2][:16]), most=6)
        for v in VAR:
            some = [p for p in paths if any(st[0] == 'Race' for st in p)][:400] if VAR[v][2] else paths
            g_replay(chk, exe[v], v, TSAN if VAR[v][2] else {}, [c['NL'], c['NT']], some, CMDS, None, legend=LEGEND, source='traits_replay.cpp')
            if chk.violations: return
