"""Behaviours of the smaller specifications (one action per observable step, label in op)."""
from vlib import *

def flat(x):
    for y in x:
        if isinstance(y, list): yield from flat(y)
        elif isinstance(y, bool): yield int(y)
        else: yield y

def g_step(lab):
    return (lab[0],) + tuple(flat(lab[1:]))

def cfg_consts(c):
    out = []
    for k, v in c.items():
        if isinstance(v, bool): v = str(v).upper()
        elif isinstance(v, (list, tuple, set)): v = '{' + ','.join(('"%s"' % x if isinstance(x, str) else str(x)) for x in v) + '}'
        out.append('%s=%s' % (k, v))
    return 'CONSTANTS ' + ' '.join(out) + '\n'

def g_exhaustive(module, c, invariants, properties, most=60, timeout=900):
    """checks the specification within the bounds and returns paths that cover every transition"""
    mod = 'G' + module
    text = ('---- MODULE %s ----\nEXTENDS %s\nEdge == PrintT(<<"E", ToString(s), ToString(s\'), ToJson(op\')>>)\n====\n' % (mod, module))
    cfg = 'SPECIFICATION Spec\n' + cfg_consts(c) + 'VIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n'
    if invariants: cfg += 'INVARIANTS ' + ' '.join(invariants) + '\n'
    if properties: cfg += 'PROPERTIES ' + ' '.join(properties) + '\n'
    rc, out = tlc(mod, cfg, workers=1, timeout=timeout, module_text=text)
    st = tlc_stats(out)
    if rc != 0 or not st['ok']:
        raise CheckError('TLC on %s.tla: %s' % (module, st['tail']))
    ids, edges, lab = {}, [], {}
    def sid(x):
        h = hashlib.md5(x.encode()).digest()
        i = ids.get(h)
        if i is None:
            i = ids[h] = len(edges); edges.append([])
        return i
    n_edges = 0
    for line in open(out, errors='replace'):
        if not line.startswith('<<"E", "'): continue
        p = line.rstrip('\n')[len('<<"E", "'):-len('">>')].split('", "')
        if len(p) != 3: raise CheckError('edge line: ' + line[:200])
        u, v = sid(p[0]), sid(p[1])
        l = lab.get(p[2])
        if l is None: l = lab[p[2]] = g_step(json.loads(p[2].replace('\\"', '"')))
        edges[u].append((v, l)); n_edges += 1
    os.unlink(out)
    pred, order = {0: None}, [0]
    for u in order:
        for v, s in edges[u]:
            if v not in pred:
                pred[v] = (u, s); order.append(v)
    todo = {u: list(range(len(edges[u]))) for u in order if edges[u]}
    total = sum(len(x) for x in todo.values())
    paths = []
    for u in reversed(order):
        while todo.get(u):
            steps, x = [], u
            while pred[x] is not None:
                y, s = pred[x]
                steps.append(s)
                for k in todo.get(y, ()):
                    if edges[y][k][0] == x and edges[y][k][1] is s:
                        todo[y].remove(k); break
                x = y
            steps.reverse()
            w, m = u, 0
            while todo.get(w) and m < most:
                k = todo[w].pop()
                v, s = edges[w][k]
                steps.append(s); w = v; m += 1
            paths.append(steps)
    st['merged_transitions'] = total
    st['paths'] = len(paths)
    return paths, st

def g_random(module, c, weights, num, seed, invariants=(), procs=4):
    W = []
    for a, k in weights.items(): W += [a] * k
    c = dict(c, Cmds=sorted(weights))
    mod = 'R' + module
    text = '''---- MODULE %s ----
EXTENDS %s
W == <<%s>>
VARIABLE hist
Draw == W[RandomElement(IF n >= 0 THEN 1..Len(W) ELSE {})]
Last == IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]
SimInit == Init /\\ hist = <<>>
SimNext == \\/ (\\E a \\in {Draw} : Do(a)) /\\ hist' = Append(hist, op')
           \\/ n < MaxCmds /\\ ~s.end /\\ UNCHANGED <<vars, hist>>
           \\/ (n = MaxCmds \\/ s.end) /\\ Last # <<"end">> /\\ UNCHANGED vars /\\ hist' = Append(hist, <<"end">>)
SimSpec == SimInit /\\ [][SimNext]_<<vars, hist>>
Emit == Last = <<"end">> => PrintT(<<"B", ToJson(hist)>>)
====
''' % (mod, module, ','.join('"%s"' % x for x in W))
    cfg = 'SPECIFICATION SimSpec\n' + cfg_consts(c) + 'CHECK_DEADLOCK FALSE\nINVARIANTS Emit ' + ' '.join(invariants) + '\n'
    procs = max(1, min(procs, num // 50))
    with ThreadPoolExecutor(procs) as ex:
        runs = list(ex.map(lambda k: tlc(mod, cfg, workers=1, module_text=text, timeout=1500, heap='1g',
            extra=['-simulate', 'num=%d' % ((num + procs - 1) // procs), '-depth', '100000', '-seed', str(seed * 1000 + k)]), range(procs)))
    paths, tot = [], dict(states=0, generated=0)
    for rc, out in runs:
        err = []
        for line in open(out, errors='replace'):
            if line.startswith('<<"B", "'):
                ls = json.loads(line.rstrip('\n')[len('<<"B", "'):-len('">>')].replace('\\"', '"'))
                paths.append([g_step(l) for l in ls[:-1]])
            else: err.append(line)
        st = tlc_stats(out)
        if 'Error:' in ''.join(err) or rc < 0:
            raise CheckError('TLC simulation: ' + ''.join(err[-40:]))
        os.unlink(out)
        tot['states'] += st['states']; tot['generated'] += st['generated']
    tot['paths'] = len(paths)
    return paths, tot

def g_body(steps, cmds):
    body = []
    for st in steps:
        body.append('%d %d %s' % (len(st), cmds[st[0]], ' '.join(map(str, st[1:]))))
    return int(hashlib.sha256('\n'.join(body).encode()).hexdigest()[:15], 16), body

def g_write(file, consts, paths, cmds):
    index = {}
    with open(file, 'w') as f:
        f.write('%d %s\n' % (len(consts), ' '.join(map(str, consts))))
        for steps in paths:
            h, body = g_body(steps, cmds)
            if h in index or not body: continue
            index[h] = steps
            f.write('P %d %d\n' % (h, len(body)) + '\n'.join(body) + '\n')
    return index

def g_pretty(steps, names=None):
    return '\n'.join('%3d  %s %s' % (i, st[0], ' '.join(map(str, st[1:]))) for i, st in enumerate(steps))

def g_replay(chk, exe, name, env, consts, paths, cmds, cls=None, timeout=20, legend='', source='', key=None):
    """replays behaviours; reports reproduced deviations of the wanted classes"""
    f = tempfile.mktemp(dir=SCRATCH)
    index = g_write(f, consts, paths, cmds)
    devs, summ, out = run_replay(exe, env, f, SEED, timeout=timeout)
    chk.add('traces_validated_against_impl', summ['paths'])
    chk.extra['commands_replayed'] = chk.extra.get('commands_replayed', 0) + summ['steps']
    ignored, seen = {}, set()
    for d in sorted(devs, key=lambda d: (d['step'], d['path'])):
        steps = index[d['path']]
        cmd = steps[d['step']][0] if d['step'] < len(steps) else '?'
        if cls is not None and d['class'] not in cls:
            ignored[d['class']] = ignored.get(d['class'], 0) + 1; continue
        if (d['class'], cmd) in seen: continue
        ok = False
        for _ in range(5):
            again, _, _ = run_replay(exe, env, f, SEED, workers=1, only=d['path'], timeout=timeout)
            if any(x['class'] == d['class'] or cls is None or x['class'] in cls for x in again): ok = True; break
        if not ok:
            ignored['unreproduced ' + d['class']] = ignored.get('unreproduced ' + d['class'], 0) + 1; continue
        seen.add((d['class'], cmd))
        h, body = g_body(steps, cmds)
        what = '[%s] behaviour %d, step %d (%s): %s: %s' % (name, d['path'], d['step'], cmd, d['class'], d['msg'])
        one = '%d %s\nP %d %d\n%s\n' % (len(consts), ' '.join(map(str, consts)), h, len(body), '\n'.join(body))
        chk.violation(key(name, d, cmd) if key else '%s %s %s%s' % (name, cmd, d['class'], ' ' + d['msg'] if d['class'] == 'crash' else ''), what + '\n' + legend + '\n' + g_pretty(steps[:d['step'] + 1]),
                      {'behaviour.txt': one, 'readable.txt': legend + '\n' + g_pretty(steps) + '\n',
                       'replay.json': json.dumps(dict(variant=name, source=source, seed=SEED, path=d['path'], deviation=d, env=env, build=recipe(exe)), indent=1)})
        if len(seen) >= 3: break
    chk.extra.setdefault('replays', []).append(dict(variant=name, behaviours=summ['paths'], steps=summ['steps'], deviations=len(devs), ignored=ignored))
    return not seen

def g_all(module, c, invariants=(), timeout=900):
    """every complete behaviour within the bounds (the history is part of the state)"""
    mod = 'A' + module
    text = '''---- MODULE %s ----
EXTENDS %s
VARIABLE hist
AllSpec == (Init /\\ hist = <<>>) /\\ [][Next /\\ hist' = Append(hist, op')]_<<vars, hist>>
Emit == (s.end \\/ n = MaxCmds) => PrintT(<<"B", ToJson(hist)>>)
====
''' % (mod, module)
    cfg = 'SPECIFICATION AllSpec\n' + cfg_consts(c) + 'CHECK_DEADLOCK FALSE\nINVARIANTS Emit ' + ' '.join(invariants) + '\n'
    rc, out = tlc(mod, cfg, workers=2, timeout=timeout, module_text=text)
    st = tlc_stats(out)
    if rc != 0 or not st['ok']: raise CheckError('TLC on %s.tla: %s' % (module, st['tail']))
    paths = []
    for line in open(out, errors='replace'):
        if line.startswith('<<"B", "'):
            paths.append([g_step(l) for l in json.loads(line.rstrip('\n')[len('<<"B", "'):-len('">>')].replace('\\"', '"'))])
    os.unlink(out)
    st['paths'] = len(paths)
    return paths, st
