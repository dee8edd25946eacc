"""Checks decided with spec/Context.tla: TLC verifies the specification, behaviours of the
specification are replayed in the real library (harness/ctx_replay.cpp)."""
import os, random, time
from collections import Counter
from vlib import *
import winmodel, sanmodel

GENERAL = {'control', 'thread', 'handle', 'event', 'stack', 'terminate', 'crash', 'hang'}
ALLCLS = GENERAL | {'fp', 'release', 'callable', 'canary', 'prealloc', 'ontop', 'exception', 'value', 'registers',
                    'create', 'sanitizer', 'guard', 'leak', 'resumefail'}

BASIC = ['New', 'Resume', 'Return', 'Call', 'Destroy', 'Move']
MIX = dict(New=3, NewFail=1, Resume=6, ResumeWith=3, Return=3, Call=1, Try=1, Arm=1, Throw=1, Pop=2, Destroy=1,
           Move=1, Swap=1, SetFP=1)

def mix(**kw):
    w = dict(MIX); w.update(kw)
    return {k: v for k, v in w.items() if v}

# what: exhaustive part  (NC, NS, depth, cmds quick, cmds thorough, commands)
#       random part      (NT, NC, NS, depth, cmds, quick number, thorough number, weights, also)
def ex(nc, ns, depth, q, t, cmds, nt=1): return dict(NT=nt, NC=nc, NS=ns, depth=depth, q=q, t=t, Cmds=cmds)
def rn(nc, ns, depth, cmds, q, t, w, nt=1, also=('OntopReturn',)):
    return dict(NT=nt, NC=nc, NS=ns, depth=depth, cmds=cmds, q=q, t=t, w=w, also=list(also))

MAIN4 = ['fib-asm', 'cc-asm', 'fib-uc', 'cc-uc']
TH8 = MAIN4 + ['fib-asm11', 'cc-asm11', 'fib-uc11', 'cc-uc11', 'fib-asm-O0', 'fib-uc-O0', 'cc-asm-O0', 'cc-uc-O0', 'fib-asm20']

# replayed in addition, with a part of the behaviours only
LIGHT = ['fib-asm11', 'cc-asm11', 'fib-uc11', 'cc-uc11', 'fib-seg', 'cc-seg', 'fib-asan', 'cc-asan']
# four threads at once, each executing its own behaviour
PAR = ['fib-par', 'cc-par', 'fib-uc-par', 'cc-uc-par', 'fib-tsan-par']
def par(v): return v.endswith('-par')
def share(v, spec, light):
    if 'tsan' in v: return spec.get('tsan_share', 8)
    return (16 if 'san' in v and 'sanapi' not in v else 4) if v in light else 1

IGNORE = {'fib-tsx': {'fp'}, 'cc-tsx': {'fp'}}
MORE = ['fib-tsx', 'cc-tsx', 'fib-asm-clang', 'cc-asm-clang', 'fib-uc-clang', 'cc-uc-clang', 'fib-ubsan', 'cc-ubsan', 'fib-asm-so', 'fib-uc-so', 'fib-uc-lto']

CHECKS = {
 'C01': dict(ex=[ex(4, 1, 2, 8, 10, BASIC)], rn=[rn(7, 3, 4, 50, 600, 20000, mix(NewFail=0, Throw=0, SetFP=0))],
             cls=GENERAL | {'ontop', 'exception', 'canary'}),
 'C02': dict(ex=[ex(3, 1, 2, 7, 10, ['New', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy', 'Move', 'Swap'])],
             rn=[rn(8, 4, 3, 50, 600, 20000, mix(Move=3, Swap=2, Throw=2, NewFail=0, SetFP=0))],
             cls=GENERAL | {'release', 'ontop', 'value'}),
 'C03': dict(ex=[ex(3, 1, 3, 7, 9, ['New', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Call', 'Try'])],
             rn=[rn(6, 2, 7, 60, 600, 20000, mix(Call=4, Try=2, New=2))],
             cls=GENERAL | {'canary', 'registers', 'prealloc', 'fp'}),
 'C04': dict(ex=[ex(3, 1, 2, 6, 8, ['New', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy', 'SetFP'])],
             rn=[rn(6, 2, 3, 50, 600, 20000, mix(SetFP=8)), rn(6, 2, 3, 40, 200, 5000, mix(SetFP=8, Exit=1, Start=2), nt=2)],
             cls=GENERAL | {'fp'}, nfp=5),
 'C05': dict(ex=[ex(3, 1, 3, 6, 8, ['New', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy', 'Try', 'Throw'])],
             rn=[rn(6, 2, 5, 50, 700, 25000, mix(ResumeWith=8, Return=6, Throw=2, Try=2))],
             cls=GENERAL | {'ontop', 'exception', 'callable', 'canary'}),
 'C06': dict(ex=[ex(3, 1, 3, 6, 8, ['New', 'Resume', 'ResumeWith', 'OntopReturn', 'Try', 'Throw', 'Uncaught', 'Destroy'])],
             rn=[rn(6, 2, 5, 45, 600, 20000, mix(Throw=5, Try=5, ResumeWith=5)),
                 rn(5, 2, 3, 14, 400, 6000, mix(Throw=2, Try=1, NewFail=0), also=('OntopReturn', 'Uncaught'))],
             cls=GENERAL | {'exception', 'ontop', 'callable'}),
 'C07': dict(ex=[ex(3, 1, 2, 8, 10, ['New', 'Resume', 'Destroy', 'Arm', 'Move']),
                 ex(3, 1, 3, 6, 8, ['New', 'Resume', 'ResumeWith', 'Destroy', 'Arm', 'Call', 'Try', 'Return'])],
             rn=[rn(7, 3, 4, 50, 700, 25000, mix(Destroy=5, Arm=5, Call=2, Try=2))],
             cls=GENERAL | {'release', 'canary', 'exception', 'ontop', 'callable'}),
 'C08': dict(ex=[ex(4, 2, 1, 6, 7, ['New', 'Resume', 'ResumeWith', 'Destroy', 'Move', 'Swap', 'NewFail'])],
             rn=[rn(10, 4, 3, 40, 600, 15000, mix(New=8, Destroy=6, Move=3, Resume=2, ResumeWith=2))],
             cls=GENERAL | {'release', 'callable', 'create'}, only='fib'),
 'C09': dict(ex=[ex(4, 1, 2, 8, 10, ['New', 'Resume', 'Return', 'Destroy', 'Move', 'Call'])],
             rn=[rn(10, 3, 3, 50, 700, 20000, mix(Return=8, New=5, Throw=0))],
             cls=GENERAL | {'release', 'callable', 'canary'}),
 'C10': dict(ex=[ex(4, 2, 1, 7, 9, ['New', 'Resume', 'Return', 'Destroy', 'Move']),
                 ex(3, 1, 3, 6, 8, ['New', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy', 'Arm', 'NewFail'])],
             rn=[rn(10, 4, 4, 50, 700, 20000, mix(New=6, Destroy=4, Return=4, NewFail=2))],
             cls=GENERAL | {'release', 'callable', 'prealloc', 'leak'}),
 'C11': dict(ex=[ex(4, 3, 1, 6, 7, ['New', 'Resume', 'Return', 'Destroy', 'Move', 'Swap'])],
             rn=[rn(9, 6, 3, 60, 700, 20000, mix(Move=10, Swap=8, Destroy=2, Return=3))],
             cls=GENERAL | {'value', 'release'}),
 'C12': dict(ex=[ex(4, 2, 1, 7, 8, ['New', 'Resume', 'Return', 'Destroy', 'NewFail'])],
             rn=[rn(12, 4, 3, 50, 900, 25000, mix(New=10, Resume=8, Return=6, Destroy=3, NewFail=2))],
             cls=GENERAL | {'callable', 'release', 'create'}),
 'C13': dict(ex=[ex(4, 2, 2, 7, 8, ['New', 'Resume', 'Return', 'Destroy', 'NewFail', 'ResumeWith'])],
             rn=[rn(10, 3, 4, 50, 800, 20000, mix(New=8, Destroy=3, NewFail=2))],
             cls=GENERAL | {'prealloc', 'release', 'callable'}, env={'REPLAY_PLAN': 'prealloc'}),
 'C17': dict(ex=[ex(3, 1, 2, 7, 9, ['New', 'NewFail', 'Resume', 'Return', 'Destroy', 'Call'])],
             rn=[rn(8, 3, 4, 40, 800, 20000, mix(NewFail=12))],
             cls=GENERAL | {'create', 'release', 'callable', 'canary', 'prealloc', 'registers', 'leak'}),
 'C18': dict(ex=[ex(4, 2, 2, 5, 7, ['New', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy'], nt=2),
                 ex(4, 1, 1, 6, 7, ['New', 'Resume', 'Return', 'Destroy', 'SetFP', 'Exit', 'Start'], nt=2)],
             rn=[rn(7, 4, 4, 60, 500, 15000, mix(Resume=9, Return=4), nt=2),
                 rn(8, 4, 4, 60, 500, 12000, mix(Resume=9, Return=4, Exit=1, Start=2), nt=3),
                 rn(7, 3, 4, 50, 800, 10000, mix())],
             cls=ALLCLS, variants=MAIN4 + ['fib-uc-lto', 'cc-uc-lto', 'fib-uc-so'] + PAR, tsan_share=2,
             thorough_variants=TH8 + PAR + ['fib-uc-lto', 'cc-uc-lto', 'fib-uc-lto-gcc', 'fib-uc-so', 'cc-uc-so', 'fib-asm-so', 'fib-uc-clang', 'cc-uc-clang', 'fib-tsan']),
 'C22': dict(ex=[ex(3, 1, 2, 6, 8, ['New', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy', 'SetFP'])],
             rn=[rn(6, 2, 3, 50, 600, 20000, mix(SetFP=8)), rn(6, 2, 3, 40, 200, 5000, mix(SetFP=8, Exit=1, Start=2), nt=2)],
             cls=GENERAL | {'guard', 'canary', 'registers', 'fp'}, variants=['fib-ssp', 'cc-ssp'],
             thorough_variants=['fib-ssp', 'cc-ssp', 'fib-ssp-O0', 'cc-ssp-O0'], nfp=5),
 'C23': dict(ex=[ex(3, 1, 2, 6, 8, ['New', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy', 'Throw', 'Try'])],
             rn=[rn(6, 3, 4, 40, 400, 6000, mix()), rn(6, 3, 3, 40, 200, 3000, mix(Exit=1, Start=2), nt=2)],
             cls=ALLCLS, variants=['fib-sanapi', 'cc-sanapi', 'fib-asan', 'cc-asan', 'fib-tsan'],
             thorough_variants=['fib-sanapi', 'cc-sanapi', 'fib-asan', 'cc-asan', 'fib-tsan', 'fib-asan-clang'], tsan_share=8),
 'C24': dict(ex=[ex(3, 1, 2, 6, 7, ['New', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy', 'Throw', 'Try', 'Arm', 'Move'])],
             rn=[rn(7, 3, 5, 50, 500, 8000, mix()), rn(6, 3, 3, 40, 150, 3000, mix(Exit=1, Start=2), nt=2)], cls=ALLCLS - {'leak'},
             variants=MAIN4 + ['fib-asm11', 'cc-asm11', 'fib-uc11', 'cc-uc11', 'fib-seg', 'cc-seg', 'fib-asm-O0', 'cc-uc-O0'] + MORE,
             thorough_variants=TH8 + ['fib-seg', 'cc-seg', 'fib-asan', 'cc-asan', 'fib-ssp'] + MORE + ['cc-uc-so', 'cc-uc-lto', 'fib-uc-lto-gcc', 'fib-asan-clang']),
}
CHECKS['C25'] = dict(ex=[ex(3, 1, 2, 6, 8, ['New', 'Resume', 'ResumeWith', 'ResumeFail', 'Return', 'OntopReturn', 'Destroy'])],
    rn=[rn(6, 2, 5, 45, 700, 20000, mix(ResumeFail=6, ResumeWith=6)),
        rn(6, 2, 3, 40, 150, 4000, mix(ResumeFail=6, ResumeWith=6, Exit=1, Start=2), nt=2)],
    cls=GENERAL | {'resumefail', 'ontop', 'release', 'callable', 'fp', 'registers', 'leak'},
    variants=MAIN4 + ['fib-uc11', 'cc-uc11'])
CHECKS['C26'] = dict(ex=[ex(4, 2, 2, 5, 7, ['New', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy', 'Quit']),
        ex(4, 1, 2, 5, 7, ['New', 'Resume', 'Return', 'Destroy', 'Arm', 'Exit', 'Start'], nt=2)],
    rn=[rn(7, 4, 4, 14, 800, 15000, mix(Quit=1, Destroy=1, New=4)),
        rn(7, 4, 4, 14, 500, 8000, mix(Quit=1, Exit=2, Start=2, New=4), nt=2),
        rn(8, 4, 4, 50, 500, 10000, mix(Exit=4, Start=6, Arm=3, New=4), nt=3)],
    cls=GENERAL | {'release', 'callable', 'exception', 'ontop', 'canary', 'fp', 'sanitizer'}, variants=MAIN4 + ['fib-asan', 'cc-asan'],
    thorough_variants=TH8 + ['fib-asan', 'cc-asan', 'fib-tsan', 'fib-seg', 'cc-seg'])
CHECKS['C28'] = dict(ex=[ex(3, 1, 2, 6, 8, ['New', 'NewFail', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy']),
        ex(4, 1, 2, 5, 7, ['New', 'Resume', 'Return', 'Destroy', 'Arm', 'Exit', 'Start'], nt=2)],
    rn=[rn(7, 3, 5, 50, 500, 10000, mix(SetFP=0, ResumeFail=1)),
        rn(8, 4, 4, 50, 250, 5000, mix(SetFP=0, Exit=2, Start=3, ResumeFail=1), nt=2),
        rn(7, 4, 4, 14, 250, 5000, mix(SetFP=0, Quit=1, Exit=2, Start=2, New=4), nt=2)],
    cls=ALLCLS | {'winapi'}, variants=['fib-win', 'cc-win', 'fib-win-xp', 'cc-win-xp'],
    thorough_variants=['fib-win', 'cc-win', 'fib-win-xp', 'cc-win-xp', 'fib-win-ubsan'], winlog=True)
CHECKS['C30'] = dict(ex=[ex(3, 1, 2, 6, 8, ['New', 'NewFail', 'Resume', 'ResumeWith', 'Return', 'OntopReturn', 'Destroy']),
        ex(4, 1, 2, 5, 7, ['New', 'Resume', 'Return', 'Destroy', 'Arm', 'Exit', 'Start'], nt=2)],
    rn=[rn(7, 3, 5, 50, 500, 10000, mix(NewFail=2)), rn(7, 4, 4, 50, 250, 5000, mix(Exit=2, Start=3), nt=2),
        rn(10, 4, 4, 50, 300, 8000, mix(New=6, Destroy=5, Return=5, Arm=2))],
    cls=ALLCLS | {'shadowstack'}, variants=['fib-shstk', 'cc-shstk'], thorough_variants=['fib-shstk', 'cc-shstk'])

def _callcc(cmds):
    return ['CallCC' if x == 'New' else x for x in cmds]
def _callcc_w(w):
    return {('CallCC' if k == 'New' else k): v for k, v in w.items()}

def prepare(spec, ifaces):
    """jobs that ask TLC for behaviours: (interface, label, constants, thunk)"""
    jobs = []
    for cc in ifaces:
        for i, e in enumerate(spec.get('ex', [])):
            c = dict(e, cmds=e['t'] if THOROUGH else e['q'], NFP=min(spec.get('nfp', 2), 3))
            if cc: c['Cmds'] = _callcc(c['Cmds'])
            jobs.append((cc, 'exhaustive', c, lambda c=c: exhaustive_paths(c)))
        for i, r in enumerate(spec.get('rn', [])):
            c = dict(r, NFP=spec.get('nfp', 3))
            w = _callcc_w(r['w']) if cc else r['w']
            num = r['t'] if THOROUGH else r['q']
            jobs.append((cc, 'random', c, lambda c=c, w=w, n=num, i=i: random_paths(c, w, n, SEED * 100 + i + 1,
                         procs=8 if THOROUGH else 3)))
    return jobs

def report(chk, variant, seed, c, paths, dev, spec, env):
    byid = {}
    for p in paths:
        h, body = path_of(p)
        byid[h] = (p, body)
    p, body = byid[dev['path']]
    one = '%d %d %d\n' % (c['NT'], c['NC'], c['NS'])
    for h in dev.get('group', [dev['path']]):
        one += 'P %d %d\n%s\n' % (h, len(byid[h][1]), '\n'.join(byid[h][1]))
    what = '[%s] behaviour %d, step %d (%s): %s: %s' % (variant, dev['path'], dev['step'], dev['cmd'], dev['class'], dev['msg'])
    meta = dict(variant=variant, source='ctx_replay.cpp', seed=seed, path=dev['path'], deviation=dev, env=env,
                loop=env.get('REPLAY_LOOP'), build=recipe(build_variant(variant)))
    chk.violation('context %s %s' % (variant, dev['class']), what + '\n' + pretty(p[:dev['step'] + 1]),
                  {'behaviour.txt': one, 'readable.txt': pretty(p) + '\n', 'replay.json': json.dumps(meta, indent=1)})

def run(chk, prop=None):
    prop = prop or chk.prop
    spec = CHECKS[prop]
    light = () if 'variants' in spec else LIGHT
    variants = spec.get('variants', MAIN4 + LIGHT)
    if THOROUGH:
        light = [v for v in light if v not in TH8]
        variants = spec.get('thorough_variants', spec.get('variants', TH8 + [v for v in LIGHT if v not in TH8]))
    if spec.get('only'): variants = [v for v in variants if v.startswith(spec['only'])]
    ifaces = sorted({v.startswith('cc-') for v in variants})
    jobs = prepare(spec, ifaces)
    with ThreadPoolExecutor(1) as bex:
        bfut = bex.submit(build_all, [(v, 'ctx_replay.cpp') for v in variants])
        with ThreadPoolExecutor(2 if THOROUGH else 4) as ex_:
            results = list(ex_.map(lambda j: j[3](), jobs))
        try:
            bfut.result()
        except BuildFailed as e:
            chk.violation('build ' + os.path.basename(e.what), 'a supported configuration does not compile:\n' + e.out[-3000:],
                          {'compiler.txt': e.out})
            return
    chk.extra.setdefault('generation', [])
    sets = []
    for (cc, kind, c, _), (paths, st) in zip(jobs, results):
        if not paths: raise CheckError('TLC generated no behaviours')
        f = tempfile.mktemp(dir=SCRATCH)
        uniq = {}
        for p in paths: uniq[path_of(p)[0]] = p
        n = write_paths(f, c, paths)
        sets.append((cc, kind, c, f, list(uniq.values()), n))
        chk.add('states', st['states'])
        chk.add('transitions', st['generated'])
        chk.extra['generation'].append(dict(interface='callcc' if cc else 'fiber', kind=kind, behaviours=n,
            states=st['states'], transitions_covered=st.get('merged_transitions', 0),
            constants='NT=%d NC=%d NS=%d MaxDepth=%d MaxCmds=%d NFP=%d' % (c['NT'], c['NC'], c['NS'], c['depth'], c['cmds'], c['NFP'])))
    log('specification checked, %d behaviours generated' % sum(s[5] for s in sets))
    rs = random.Random(SEED)
    for s in sets[:4]:
        chk.sample(pretty(rs.choice(s[4])[:14]))
    chk.extra.setdefault('replays', [])
    chk.extra.setdefault('commands_replayed', 0)
    for v in variants:
        env = dict(VARIANTS[v]['env']); env.update(spec.get('env', {}))
        for cc, kind, c, f, paths, n in sets:
            if cc != v.startswith('cc-'): continue
            if par(v) and c['NT'] > 1: continue
            use = f
            sh_ = share(v, spec, light) * (4 if par(v) and kind == 'exhaustive' else 1)
            if sh_ > 1:
                use = tempfile.mktemp(dir=SCRATCH)
                write_paths(use, c, paths[::sh_])
            if spec.get('winlog') or 'sanapi' in v:
                env['REPLAY_CALLS'] = tempfile.mkdtemp(dir=SCRATCH)
            devs, paths_, steps_ = [], 0, 0
            t0 = time.time()
            for k in range(10 if par(v) and 'tsan' not in v else 1):
                ds, summ, out = run_replay(build_variant(v), env, use, SEED + 1000 * k, timeout=60 if 'tsan' in v else 20,
                                           workers=3 if par(v) else NCPU)
                devs += [dict(d, seed=SEED + 1000 * k) for d in ds]
                paths_ += summ['paths']; steps_ += summ['steps']
                if ds: break
            chk.add('traces_validated_against_impl', paths_)
            chk.extra['commands_replayed'] += steps_
            ignored = Counter()
            seen = set()
            for d in sorted(devs, key=lambda d: (d['step'], d['path'])):
                if d['class'] not in spec['cls'] or d['class'] in IGNORE.get(v, ()):
                    ignored[d['class']] += 1; continue
                if (d['class'], d['cmd']) in seen: continue
                if confirm(v, env, use, d, spec['cls'] - IGNORE.get(v, set()), d['seed']):
                    seen.add((d['class'], d['cmd']))
                    if len(seen) <= 3: report(chk, v, d['seed'], c, paths, d, spec, env)
                else: ignored['unreproduced ' + d['class']] += 1
                if len(seen) >= 3: break
            chk.extra['replays'].append(dict(variant=v, kind=kind, NT=c['NT'], behaviours=paths_, steps=steps_,
                                             deviations=len(devs), ignored=dict(ignored), secs=round(time.time() - t0, 1)))
            if 'REPLAY_CALLS' in env:
                (sanmodel if 'sanapi' in v else winmodel).traces(chk, v, kind, env.pop('REPLAY_CALLS'))
            if chk.violations and not THOROUGH: return
        if 'leak' in spec['cls'] and not par(v):
            replay_cycles(chk, v, spec, sets)
            if chk.violations and not THOROUGH: return
    chk.assumptions += ['x86_64 Linux, gcc: the assembler implementations for other targets cannot run here',
                        'behaviours within the bounds listed under generation']

def replay_cycles(chk, v, spec, sets):
    """behaviours that lead back to where they began, repeated: no resource may be used up"""
    rs = random.Random(SEED)
    for cc, kind, c, f, paths, n in sets:
        if cc != v.startswith('cc-') or c['NT'] != 1: continue
        cyc = cycles(paths)
        if not cyc: continue
        few = sorted(cyc, key=lambda p: path_of(p)[0])
        rs.shuffle(few)
        few = few[:(400 if THOROUGH else 48)]
        use = tempfile.mktemp(dir=SCRATCH)
        write_paths(use, c, few)
        env = dict(VARIANTS[v]['env'], REPLAY_LOOP='60' if 'tsan' in v else '12', REPLAY_SLACK='65536' if 'san' in v and 'sanapi' not in v else '4096')
        if 'ASAN_OPTIONS' in env: env['ASAN_OPTIONS'] += ':quarantine_size_mb=0:thread_local_quarantine_size_kb=0'
        if 'TSAN_OPTIONS' in env: env['TSAN_OPTIONS'] += ':history_size=0'
        t0 = time.time()
        devs, summ, out = run_replay(build_variant(v), env, use, SEED, timeout=120)
        chk.add('traces_validated_against_impl', summ['paths'])
        for d in sorted(devs, key=lambda d: (d['step'], d['path'])):
            if d['class'] in spec['cls'] and confirm(v, env, use, d, spec['cls'] - IGNORE.get(v, set())):
                report(chk, v, SEED, c, few, d, spec, env); break
        chk.extra['replays'].append(dict(variant=v, kind='cyclic, repeated 48 times', NT=1, behaviours=summ['paths'],
                                         steps=48 * summ['steps'], deviations=len(devs),
                                         secs=round(time.time() - t0, 1)))

def cycles(paths):
    """the parts of behaviours that lead back to a state without contexts and handles"""
    r = {}
    for p in paths:
        made, best = set(), 0
        for i, (a, t, c, l, m, ev, obs) in enumerate(p):
            if a in ('New', 'CallCC'): made.add(m)
            if len(obs) < 6: break
            cur, depth, acc, slots, fp, rel = obs[:6]
            if (cur == (1,) and depth == (1,) and acc == (0,) and not any(slots) and fp == (0,)
                    and all(rel[x - 1] == 2 for x in made)): best = i + 1
        if best >= 2 and any(s[0] in ('New', 'CallCC', 'NewFail') for s in p[:best]):
            q = tuple(p[:best])
            r[q] = q
    return [list(x) for x in r]

def confirm(v, env, f, d, cls=(), seed=SEED):
    for _ in range(30 if par(v) else 6):
        devs, summ, out = run_replay(build_variant(v), env, f, seed, workers=1, only=d['path'], timeout=30 if d['class'] == 'hang' and 'tsan' not in v else 60)
        for x in devs:
            if x['class'] == d['class'] or x['class'] in cls: return True
    return False
