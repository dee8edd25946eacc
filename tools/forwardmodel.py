"""spec/Forward.tla: invocation, apply, exchange and tuple helpers; a program with one case per
behaviour is generated from the specification (harness/forward_cases.hpp)"""
from gmodel import *
ALL = ['Invoke', 'Apply', 'Head', 'Tail', 'Exchange', 'Arg', 'Run', 'RunTuple', 'RunExchange']
CMDS = {n: i + 1 for i, n in enumerate(ALL)}
LEGEND = 'see spec/Forward.tla for the codes'
VAR = {'fwd11': ['-std=c++11'], 'fwd14': ['-std=c++14'], 'fwd17': ['-std=c++17'], 'fwd20': ['-std=c++20']}

def instance(steps):
    h, fk, fc, tk, tc = steps[0]
    args = ', '.join(str(x[1]) for x in steps[1:-1])
    sep = ', ' + args if args else ''
    last = steps[-1]
    if h == 'Invoke': return 'case_invoke< %d, %d, %d%s >' % (fk, fc, last[1], sep)
    if h == 'Apply': return 'case_apply< %d, %d, %d, %d, %d%s >' % (fk, fc, tk, tc, last[1], sep)
    if h in ('Head', 'Tail'): return 'case_tuple< %d, %d, %d%s >' % (3 if h == 'Head' else 4, tc, last[1], sep)
    return 'case_exchange< %s >' % args

def build(v, paths, parts=8):
    d = SCRATCH + '/' + v + '.src'
    os.makedirs(d, exist_ok=True)
    srcs = [HARNESS + '/forward_main.cpp']
    per = [paths[i::parts] for i in range(parts)]
    per = [p for p in per if p]
    for i, ps in enumerate(per):
        with open('%s/cases%d.cpp' % (d, i), 'w') as f:
            f.write('#include "forward_cases.hpp"\nextern Entry const table%d[] = {\n' % i)
            for p in ps: f.write('{ %dL, & %s },\n' % (g_body(p, CMDS)[0], instance(p)))
            f.write('};\n')
            if i == 0:
                for k in range(1, len(per)): f.write('extern Entry const table%d[];\n' % k)
                f.write('extern Entry const* const tables[] = { %s };\n' % ', '.join('table%d' % k for k in range(len(per))))
                f.write('extern long const sizes[] = { %s };\n' % ', '.join(str(len(x)) for x in per))
                f.write('extern int const ntables = %d;\n' % len(per))
        srcs.append('%s/cases%d.cpp' % (d, i))
    return compile_to(SCRATCH + '/' + v, srcs, BASE + VAR[v] + ['-O0', '-w', '-I' + HARNESS])

def run(chk):
    c = dict(MaxArgs=3, MaxLong=9, MaxMember=3 if THOROUGH else 2, MaxCmds=20, Cmds=ALL)
    mc = dict(c, MaxArgs=4 if THOROUGH else 3)
    jobs = [lambda: g_all('Forward', c), lambda: g_exhaustive('Forward', mc, [], ['Exact', 'Elements'])]
    with ThreadPoolExecutor(2) as ex: (paths, st), (_, st2) = list(ex.map(lambda j: j(), jobs))
    chk.add('states', st['states'] + st2['states']); chk.add('transitions', st['generated'] + st2['generated'])
    chk.extra.setdefault('generation', []).append(dict(spec='Forward', constants=cfg_consts(c).strip(), behaviours=len(paths)))
    paths.sort(key=repr)
    log('%d behaviours generated' % len(paths))
    for p in paths[::len(paths) // 6]: chk.sample(g_pretty(p), most=6)
    names = list(VAR)
    sets = {}
    for i, v in enumerate(names):
        ps = [p for p in paths if not (v == 'fwd20' and p[0][0] == 'Invoke')]   # std::result_of is gone: not used there
        if not THOROUGH: ps = [p for k, p in enumerate(ps) if k % 3 == i % 3 or len(p) <= 3]
        sets[v] = ps
    exe = {}
    pool = ThreadPoolExecutor(2)
    futs = {v: pool.submit(build, v, sets[v]) for v in names}
    for v in names:
        try: exe[v] = futs[v].result()
        except BuildFailed as e:
            chk.violation('build ' + os.path.basename(e.what), 'calls within the specification do not compile:\n' + e.out[:4000], {'compiler.txt': e.out})
            return
        log('built', v, len(sets[v]))
    for v in names:
        g_replay(chk, exe[v], v, {}, [0], sets[v], CMDS, None, legend=LEGEND, source='forward_main.cpp')
        if chk.violations: return
