#!/usr/bin/env python3
"""replay.py DIR: builds the program of a saved replay from the current tree and runs its behaviour again.
Exits 1 if it deviates from the specification (again), 0 if it does not."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

def main():
    d = sys.argv[1]
    print(open(d + '/what.txt').read())
    if not os.path.exists(d + '/replay.json'):
        print('(does not compile: see compiler.txt)'); return 2
    m = json.load(open(d + '/replay.json'))
    if m.get('kind') == 'asm':
        import asmmodel
        return asmmodel.again(m)
    b = m['build']
    full = lambda x: x.replace('@HARNESS', HARNESS).replace('@REPO', REPO).replace('@SCRATCH', SCRATCH)
    for n, t in b['generated'].items():
        os.makedirs(os.path.dirname(full(n)), exist_ok=True)
        open(full(n), 'w').write(t)
    exe = compile_to(SCRATCH + '/again', [full(x) for x in b['sources']], [full(x) for x in b['flags']], b['cxx'],
                     so=[full(x) for x in b['so']] if b.get('so') else None)
    for _ in range(60 if m['variant'].endswith('-par') else 6):
        devs, summ, out = run_replay(exe, m['env'], d + '/behaviour.txt', m['seed'], workers=1, timeout=120)
        for x in devs:
            print('DEVIATES at step %d: %s: %s' % (x['step'], x['class'], x['msg'])); return 1
    print('no deviation: %d behaviour, %d steps as specified' % (summ['paths'], summ['steps']))
    return 0
if __name__ == '__main__':
    sys.exit(main())
