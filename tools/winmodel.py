"""spec/WinFiber.tla: the Windows API for fibers. run: all allowed sequences of calls within a bound;
traces: sequences of calls recorded from the library while it executed behaviours of Context.tla"""
import os, random, re
from vlib import *
INV = ['Allowed', 'OneThread', 'OneFiber', 'GoneNotRunning']

def check(spec, nth, nfb, traces):
    """traces: list of lists of (call, thread, fiber, result); None, or (index of the trace, of the call, output)"""
    mod = '---- MODULE WinTraces ----\nEXTENDS WinFiber\nTR == {%s}\n====\n' % ',\n'.join(
        '<<%d, <<' % (n + 1) + ','.join('<<%d,%d,%d,%d>>' % x for x in t) + '>>>>' for n, t in enumerate(traces))
    cfg = 'CONSTANTS NTH=%d NFB=%d\nTraces <- TR\nSPECIFICATION %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (nth, nfb, spec, ' '.join(INV))
    rc, out = tlc('WinTraces', cfg, module_text=mod, timeout=600)
    st = tlc_stats(out)
    if st['ok']: return None, st
    txt = open(out, errors='replace').read()
    m = re.findall(r'/\\ log = <<\s*(\d+)', txt); k = re.findall(r'/\\ i = (\d+)', txt)
    if 'Invariant' not in txt or not m: raise CheckError('TLC: ' + st['tail'])
    return (int(m[-1]) - 1, int(k[-1]) - 1, txt), st

def run(chk):
    bad, st = check('Free', 2, 4 if THOROUGH else 3, [])
    if bad: raise CheckError('spec/WinFiber.tla: ' + bad[2][-2000:])
    chk.add('states', st['states']); chk.add('transitions', st['generated'])
    # the specification tells right from wrong
    right = [(8, 1, 1, 1), (5, 1, 2, 1), (6, 1, 2, 1), (6, 1, 1, 1), (7, 1, 2, 1)]
    for wrong in ([(6, 1, 2, 1)], [(7, 1, 2, 1)], [(9, 1, 1, 1), (6, 1, 1, 1)], [(2, 1, 1, 1)], [(1, 1, 3, 1)], [(9, 1, 1, 1), (1, 1, 3, 1), (10, 1, 0, 1)]):
        bad, _ = check('Spec', 1, 3, [right, right + wrong])
        if not bad or bad[0] != 1 or bad[1] < len(right): raise CheckError('spec/WinFiber.tla accepts a wrong sequence of calls')

def traces(chk, v, kind, d):
    """the recorded calls have to be behaviours of the specification"""
    names = sorted(os.listdir(d))
    random.Random(SEED).shuffle(names)
    T = []
    for n in names[:6000 if THOROUGH else 500]:
        t = [tuple(map(int, l.split())) for l in open(d + '/' + n)]
        if t: T.append((n, t))
    if not T: return
    bad, st = check('Spec', max(x[1] for n, t in T for x in t), max(x[2] for n, t in T for x in t), [t for n, t in T])
    chk.add('states', st['states']); chk.add('transitions', st['generated'])
    chk.extra.setdefault('api_traces', []).append(dict(variant=v, kind=kind, traces=len(T), calls=sum(len(t) for n, t in T)))
    if bad:
        n, t = T[bad[0]]
        chk.violation('winapi trace ' + v, '[%s] call %d of behaviour %s is not allowed by the API' % (v, bad[1], n),
                      {'calls.txt': ''.join('%d %d %d %d\n' % x for x in t), 'tlc.txt': bad[2][-4000:]})
