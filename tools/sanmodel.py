"""spec/SanFiber.tla: what the sanitizers are told about contexts. run: all right sequences of calls within a
bound; traces: sequences of calls recorded from the library while it executed behaviours of Context.tla"""
import os, random, re
from vlib import *
INV = ['Right', 'OneThread', 'OneFiber', 'KeptOnlyWhileSuspended', 'NothingLeft']
THREAD0 = 24

def check(spec, nth, nr, t0, nfb, traces, tsan=True):
    mod = '---- MODULE SanTraces ----\nEXTENDS SanFiber\nTR == {%s}\n====\n' % ',\n'.join(
        '<<%d, <<' % (n + 1) + ','.join('<<%d,%d,%d,%d>>' % x for x in t) + '>>>>' for n, t in enumerate(traces))
    cfg = 'CONSTANTS NTH=%d NR=%d THREAD0=%d NFB=%d TSAN=%s\nTraces <- TR\nSPECIFICATION %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (
        nth, nr, t0, nfb, 'TRUE' if tsan else 'FALSE', spec, ' '.join(INV))
    rc, out = tlc('SanTraces', cfg, module_text=mod, timeout=600)
    st = tlc_stats(out)
    if st['ok']: return None, st
    txt = open(out, errors='replace').read()
    m = re.findall(r'/\\ log = <<\s*(\d+)', txt); k = re.findall(r'/\\ i = (\d+)', txt)
    if 'Invariant' not in txt or not m: raise CheckError('TLC: ' + st['tail'])
    return (int(m[-1]) - 1, int(k[-1]) - 1, txt), st

def run(chk):
    bad, st = check('Free', 2, 3, 1, 3 if THOROUGH else 2, [])
    if bad: raise CheckError('spec/SanFiber.tla: ' + bad[2][-2000:])
    chk.add('states', st['states']); chk.add('transitions', st['generated'])
    # the specification tells right from wrong: a context made, entered and left again
    T = THREAD0 + 1
    right = [(8, 1, 1, 0), (3, 1, 2, 0), (7, 1, T, 0), (1, 1, 1, 1), (4, 1, 2, 0), (2, 1, 1, 0), (7, 1, 1, 0),
             (1, 1, T, 2), (4, 1, 1, 0), (2, 1, T, 1), (7, 1, T, 0)]
    first = [(6, 1, 1, 0)]
    wrongs = ([(2, 1, T, 0)], [(7, 1, 1, 0)], [(5, 1, 1, 0)], [(9, 1, 1, 0)], [(4, 1, 2, 1)], [(4, 1, 1, 0)], [(1, 1, 0, 3)],
                  [(1, 1, 1, 0)], [(5, 1, 2, 0), (7, 1, T, 0)], [(1, 1, 1, 3), (4, 1, 2, 0), (2, 1, 1, 0)],
                  [(1, 1, 1, 3), (2, 1, 1, 2)],        # (the thread sanitizer was not told)
                  [(1, 1, 1, 3), (4, 1, 2, 0), (2, 1, 1, 2), (1, 1, T, 0), (4, 1, 1, 0), (2, 1, T, 3), (9, 1, 1, 0)])
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda w: check('Spec', 1, T, THREAD0, 3, [first + right, first + right + w]), wrongs))
    for bad, _ in res:
        if not bad or bad[0] != 1 or bad[1] < 1 + len(right): raise CheckError('spec/SanFiber.tla accepts a wrong sequence of calls')

def traces(chk, v, kind, d):
    """the recorded calls have to be behaviours of the specification"""
    names = sorted(os.listdir(d))
    random.Random(SEED).shuffle(names)
    T = []
    for n in names[:6000 if THOROUGH else 600]:
        t = [tuple(map(int, l.split())) for l in open(d + '/' + n)]
        if t: T.append((n, t))
    if not T: return
    nth = max(x[1] for n, t in T for x in t)
    nfb = max([x[2] for n, t in T for x in t if x[0] in (3, 4, 5, 6)] + [1])
    bad, st = check('Spec', nth, THREAD0 + nth, THREAD0, nfb, [t for n, t in T], not v.startswith('cc-'))
    chk.add('states', st['states']); chk.add('transitions', st['generated'])
    chk.extra.setdefault('api_traces', []).append(dict(variant=v, kind=kind, traces=len(T), calls=sum(len(t) for n, t in T)))
    if bad:
        n, t = T[bad[0]]
        chk.violation('sanitizer calls ' + v, '[%s] event %d (%s) of behaviour %s: the sanitizers are told something wrong' % (
            v, bad[1], NAMES[t[bad[1]][0]] + ' thread %d, %d, %d' % t[bad[1]][1:], n),
                      {'calls.txt': ''.join('%-8s %d %d %d\n' % ((NAMES[x[0]],) + x[1:]) for x in t), 'tlc.txt': bad[2][-4000:]})
NAMES = ['', 'start', 'finish', 'create', 'switch', 'destroy', 'main', 'run', 'alloc', 'release', 'exit']
