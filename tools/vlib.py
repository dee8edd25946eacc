"""Machinery shared by all checks: scratch space, builds, TLC, behaviours, verdicts."""
import atexit, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = VERIF + '/spec'
HARNESS = VERIF + '/harness'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = min(8, os.cpu_count() or 8)
T0 = time.time()
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

SCRATCH = tempfile.mkdtemp(prefix='ctxcheck.')
def _cleanup():
    if SCRATCH.startswith(tempfile.gettempdir() + '/ctxcheck.') and not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(_cleanup)
def _term(*_):
    sys.exit(2)
signal.signal(signal.SIGTERM, _term)

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

class CheckError(Exception):
    """The machinery itself failed: neither verdict."""

# ---------------------------------------------------------------- builds
BASE = ['-DBOOST_CONTEXT_NO_LIB', '-DBOOST_CONTEXT_STATIC_LINK', '-DBOOST_CONTEXT_SOURCE=', '-DBOOST_CONTEXT_EXPORT=',
        '-I' + REPO + '/include', '-pthread']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class BuildFailed(Exception):
    def __init__(self, what, out):
        Exception.__init__(self, what); self.what = what; self.out = out

RECIPE = {}
def recipe(exe):
    """how exe was built, for tools/replay.py; generated sources included"""
    r = dict(RECIPE[exe])
    short = lambda x: x.replace(HARNESS, '@HARNESS').replace(REPO, '@REPO').replace(SCRATCH, '@SCRATCH')
    r['generated'] = {short(x): open(x).read() for x in r['sources'] if x.startswith(SCRATCH)}
    for k in ('sources', 'flags', 'so'):
        if k in r: r[k] = [short(x) for x in r[k]]
    return r

def compile_to(out, sources, flags, cxx='g++', so=None):
    """compiles sources (C++ or preprocessed assembler) and links them; so: sources that go to a shared library"""
    if so:
        RECIPE[out] = dict(sources=list(sources), flags=list(flags), cxx=cxx, so=list(so))
        flags = [f for f in flags if not f.startswith('-DBOOST_CONTEXT_STATIC') and not f.startswith('-DBOOST_CONTEXT_SOURCE')]
        flags += ['-DBOOST_CONTEXT_DYN_LINK=1']
        lib = out + '.so'
        compile_to(lib, so, [f for f in flags if not f.startswith('-Wl,')] + ['-DBOOST_CONTEXT_SOURCE', '-fPIC', '-fvisibility=hidden', '-shared'], cxx)
        return compile_to(out, sources, flags + ['-fvisibility=hidden', lib], cxx)
    RECIPE.setdefault(out, dict(sources=list(sources), flags=list(flags), cxx=cxx))
    objs = []
    d = out + '.o.d'
    os.makedirs(d, exist_ok=True)
    def one(i_src):
        i, src = i_src
        o = '%s/%d.o' % (d, i)
        cc = cxx
        fl = [f for f in flags if not f.endswith('.so') and f != '-shared']
        if src.endswith('.S'):
            cc = 'gcc'
            fl = [f for f in fl if not f.startswith('-std=') and not f.startswith('-fsanitize') and f != '-fsplit-stack']
        r = sh([cc] + fl + ['-c', src, '-o', o])
        if r.returncode:
            raise BuildFailed(src, r.stdout)
        return o
    with ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(one, enumerate(sources)))
    r = sh([cxx] + [f for f in flags if not f.endswith('.so')] + objs + [f for f in flags if f.endswith('.so')] + ['-o', out])
    if r.returncode:
        raise BuildFailed(out, r.stdout)
    return out

ASM = [REPO + '/src/asm/%s_x86_64_sysv_elf_gas.S' % f for f in ('make', 'jump', 'ontop')]
LIB_ASM = ASM + [REPO + '/src/fcontext.cpp', REPO + '/src/posix/stack_traits.cpp']
LIB_UC = [REPO + '/src/fiber.cpp', REPO + '/src/continuation.cpp', REPO + '/src/posix/stack_traits.cpp']
UC = ['-DBOOST_USE_UCONTEXT']
LIB_WIN = [REPO + '/src/fiber.cpp', REPO + '/src/continuation.cpp', REPO + '/src/windows/stack_traits.cpp', HARNESS + '/winapi.cpp']
WIN = ['-DBOOST_USE_WINFIB', '-I' + HARNESS + '/win_stub']
WRAP = ['-Wl,--wrap=getcontext']

SHSTK = ['-fcf-protection=full', '-DSHADOW_STACK_SYSCALL=1', '-DSHSTK', '-fno-pie', '-no-pie', '-include', HARNESS + '/shstk.h', '-Wl,--wrap=syscall', '-Wl,--wrap=munmap']

# name -> (library sources, flags, environment)
def _v(lib, flags, env=None, cxx='g++', so=False):
    return dict(lib=lib, flags=flags, env=env or {}, cxx=cxx, so=so)
O = ['-O2', '-DNDEBUG', '-g1']
O1 = ['-O1', '-g1']
ASAN = {'ASAN_OPTIONS': 'exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:handle_segv=0:handle_sigbus=0'}
ASAN0 = {'ASAN_OPTIONS': 'exitcode=66:detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:handle_segv=0:handle_sigbus=0'}
TSAN = {'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:handle_segv=0:report_signal_unsafe=0:die_after_fork=0'}
VARIANTS = {
    'fib-asm':      _v(LIB_ASM, ['-std=c++17'] + O),
    'cc-asm':       _v(LIB_ASM, ['-std=c++17', '-DIF_CALLCC'] + O),
    'fib-asm11':    _v(LIB_ASM, ['-std=c++11'] + O1),
    'cc-asm11':     _v(LIB_ASM, ['-std=c++11', '-DIF_CALLCC'] + O1),
    'fib-asm20':    _v(LIB_ASM, ['-std=c++20', '-O3', '-DNDEBUG']),
    'fib-uc':       _v(LIB_UC, ['-std=c++17'] + UC + O + WRAP),
    'cc-uc':        _v(LIB_UC, ['-std=c++17', '-DIF_CALLCC'] + UC + O + WRAP),
    'fib-uc11':     _v(LIB_UC, ['-std=c++11'] + UC + O1 + WRAP),
    'cc-uc11':      _v(LIB_UC, ['-std=c++11', '-DIF_CALLCC'] + UC + O1 + WRAP),
    'fib-uc-O0':    _v(LIB_UC, ['-std=c++14', '-O0'] + UC + WRAP),
    'cc-uc-O0':     _v(LIB_UC, ['-std=c++14', '-O0', '-DIF_CALLCC'] + UC + WRAP),
    'fib-asm-O0':   _v(LIB_ASM, ['-std=c++14', '-O0']),
    'cc-asm-O0':    _v(LIB_ASM, ['-std=c++14', '-O0', '-DIF_CALLCC']),
    'fib-seg':      _v(LIB_UC, ['-std=c++17', '-DBOOST_USE_SEGMENTED_STACKS', '-fsplit-stack'] + UC + O1 + WRAP),
    'cc-seg':       _v(LIB_UC, ['-std=c++17', '-DBOOST_USE_SEGMENTED_STACKS', '-fsplit-stack', '-DIF_CALLCC'] + UC + O1 + WRAP),
    'fib-asan':     _v(LIB_UC, ['-std=c++17', '-DBOOST_USE_ASAN', '-fsanitize=address', '-DSANITIZED'] + UC + O1 + WRAP, ASAN),
    'cc-asan':      _v(LIB_UC, ['-std=c++17', '-DBOOST_USE_ASAN', '-fsanitize=address', '-DSANITIZED', '-DIF_CALLCC'] + UC + O1 + WRAP, ASAN),
    'fib-tsan':     _v(LIB_UC, ['-std=c++17', '-DBOOST_USE_TSAN', '-fsanitize=thread', '-DSANITIZED'] + UC + O1 + WRAP, TSAN),
    'fib-asm-clang': _v(LIB_ASM, ['-std=c++17'] + O, cxx='clang++'),
    'cc-asm-clang': _v(LIB_ASM, ['-std=c++20', '-O3', '-DNDEBUG', '-DIF_CALLCC'], cxx='clang++'),
    'fib-uc-clang': _v(LIB_UC, ['-std=c++17'] + UC + O + WRAP, cxx='clang++'),
    'cc-uc-clang':  _v(LIB_UC, ['-std=c++11', '-DIF_CALLCC'] + UC + O + WRAP, cxx='clang++'),
    'fib-asan-clang': _v(LIB_UC, ['-std=c++17', '-DBOOST_USE_ASAN', '-fsanitize=address', '-DSANITIZED'] + UC + O1 + WRAP, ASAN, cxx='clang++'),
    'fib-ubsan':    _v(LIB_UC, ['-std=c++17', '-fsanitize=undefined', '-fno-sanitize-recover=all'] + UC + O1 + WRAP),
    'cc-ubsan':     _v(LIB_ASM, ['-std=c++17', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-DIF_CALLCC'] + O1),
    'fib-asm-so':   _v(LIB_ASM, ['-std=c++14'] + O, so=True),
    'fib-uc-so':    _v(LIB_UC, ['-std=c++14'] + UC + O + WRAP, so=True),
    'cc-uc-so':     _v(LIB_UC, ['-std=c++14', '-DIF_CALLCC'] + UC + O + WRAP, so=True),
    'fib-uc-lto':   _v(LIB_UC, ['-std=c++17', '-flto', '-O3', '-DNDEBUG'] + UC + WRAP, cxx='clang++'),
    'cc-uc-lto':    _v(LIB_UC, ['-std=c++17', '-flto', '-O2', '-DNDEBUG', '-DIF_CALLCC'] + UC + WRAP, cxx='clang++'),
    'fib-uc-lto-gcc': _v(LIB_UC, ['-std=c++17', '-flto', '-O3', '-DNDEBUG'] + UC + WRAP),
    # a stand-in for both sanitizers that records what they are told
    'fib-sanapi':   _v(LIB_UC + [HARNESS + '/sanapi.cpp'], ['-std=c++17', '-DBOOST_USE_ASAN', '-DBOOST_USE_TSAN', '-DSANAPI'] + UC + O1 + WRAP),
    'cc-sanapi':    _v(LIB_UC + [HARNESS + '/sanapi.cpp'], ['-std=c++11', '-DBOOST_USE_ASAN', '-DSANAPI', '-DIF_CALLCC'] + UC + O + WRAP),
    # several threads at once
    'fib-par':      _v(LIB_ASM, ['-std=c++17', '-DPARALLEL', '-pthread'] + O),
    'cc-par':       _v(LIB_ASM, ['-std=c++11', '-DPARALLEL', '-pthread', '-DIF_CALLCC'] + O1),
    'fib-uc-par':   _v(LIB_UC, ['-std=c++11', '-DPARALLEL', '-pthread'] + UC + O1 + WRAP),
    'cc-uc-par':    _v(LIB_UC, ['-std=c++17', '-DPARALLEL', '-pthread', '-DIF_CALLCC'] + UC + O + WRAP),
    'fib-tsan-par': _v(LIB_UC, ['-std=c++17', '-DPARALLEL', '-pthread', '-DBOOST_USE_TSAN', '-fsanitize=thread', '-DSANITIZED'] + UC + O1 + WRAP, TSAN),
    'fib-tsx':      _v(LIB_ASM, ['-std=c++17', '-DBOOST_USE_TSX'] + O),       # (does not keep the floating-point environment)
    'cc-tsx':       _v(LIB_ASM, ['-std=c++11', '-DBOOST_USE_TSX', '-DIF_CALLCC'] + O1),
    'fib-win':      _v(LIB_WIN, ['-std=c++17', '-D_WIN32_WINNT=0x0601'] + WIN + O),
    'cc-win':       _v(LIB_WIN, ['-std=c++11', '-D_WIN32_WINNT=0x0601', '-DIF_CALLCC'] + WIN + O1),
    'fib-win-ubsan': _v(LIB_WIN, ['-std=c++17', '-O1', '-D_WIN32_WINNT=0x0601', '-fsanitize=undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'] + WIN),
    'fib-win-xp':   _v(LIB_WIN, ['-std=c++11', '-D_WIN32_WINNT=0x0501'] + WIN + O1),
    'cc-win-xp':    _v(LIB_WIN, ['-std=c++17', '-D_WIN32_WINNT=0x0501', '-DIF_CALLCC'] + WIN + O),
    # Intel's shadow stacks, the instructions replaced by software
    'fib-shstk':    _v(LIB_ASM + [HARNESS + '/shstk.cpp'], ['-std=c++17'] + SHSTK + O),
    'cc-shstk':     _v(LIB_ASM + [HARNESS + '/shstk.cpp'], ['-std=c++11', '-DIF_CALLCC'] + SHSTK + O1),
    'fib-ssp':      _v(LIB_ASM, ['-std=c++17', '-DBOOST_CONTEXT_TLS_STACK_PROTECTOR', '-DCHECK_GUARD', '-fno-stack-protector'] + O),
    'fib-ssp-O0':   _v(LIB_ASM, ['-std=c++14', '-O0', '-DBOOST_CONTEXT_TLS_STACK_PROTECTOR', '-DCHECK_GUARD', '-fno-stack-protector']),
    'cc-ssp-O0':    _v(LIB_ASM, ['-std=c++14', '-O0', '-DBOOST_CONTEXT_TLS_STACK_PROTECTOR', '-DCHECK_GUARD', '-fno-stack-protector', '-DIF_CALLCC']),
    'cc-ssp':       _v(LIB_ASM, ['-std=c++17', '-DBOOST_CONTEXT_TLS_STACK_PROTECTOR', '-DCHECK_GUARD', '-fno-stack-protector', '-DIF_CALLCC'] + O),
}

_built = {}
def build_variant(name, source='ctx_replay.cpp'):
    key = (name, source)
    if key not in _built:
        v = VARIANTS[name]
        out = '%s/%s-%s' % (SCRATCH, os.path.splitext(source)[0], name)
        src = [HARNESS + '/' + source] + ([HARNESS + '/second.cpp'] if source == 'ctx_replay.cpp' else [])
        if v['so']: compile_to(out, src, BASE + v['flags'], v['cxx'], so=v['lib'])
        else: compile_to(out, src + v['lib'], BASE + v['flags'], v['cxx'])
        _built[key] = out
    return _built[key]

def build_all(jobs):
    """jobs: list of (variant, source); builds in parallel"""
    jobs = sorted(set(jobs))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: build_variant(*j), jobs))

# ---------------------------------------------------------------- TLC
_tlc_n = [0]
def tlc(module, cfg, workers=4, extra=(), timeout=600, heap='4g', stdout=None, module_text=None):
    """runs TLC; module: name in /verif/spec, or the name of module_text"""
    _tlc_n[0] += 1
    d = '%s/tlc%d' % (SCRATCH, _tlc_n[0])
    os.makedirs(d)
    open(d + '/M.cfg', 'w').write(cfg)
    if module_text:
        path = '%s/%s.tla' % (d, module)
        open(path, 'w').write(module_text)
    else:
        path = '%s/%s.tla' % (SPEC, module)
    cmd = ['java', '-Xmx' + heap, '-XX:+UseParallelGC', '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + d,
           '-cp', TLAJARS, 'tlc2.TLC', '-metadir', d + '/m', '-config', d + '/M.cfg', '-workers', str(workers),
           '-noGenerateSpecTE'] + list(extra) + [path]
    out = d + '/out'
    with open(out, 'w') as f:
        try:
            rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=d).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    return rc, out

def tlc_stats(out):
    st = dict(states=0, generated=0, depth=0, ok=False)
    tail = []
    for line in open(out, errors='replace'):
        if line.startswith('<<'):
            continue
        m = re.match(r'(\d+) states generated, (\d+) distinct states', line)
        if m: st['generated'], st['states'] = int(m.group(1)), int(m.group(2))
        m = re.match(r'The depth of the complete state graph search is (\d+)', line)
        if m: st['depth'] = int(m.group(1))
        m = re.match(r'Progress: (\d+) states checked, (\d+) traces', line)
        if m: st['states'] = st['generated'] = int(m.group(1)); st['traces'] = int(m.group(2))
        if 'No error has been found' in line: st['ok'] = True
        tail.append(line)
    st['tail'] = ''.join(tail[-60:])
    return st

CMD = {n: i for i, n in enumerate(['init', 'New', 'NewFail', 'CallCC', 'Resume', 'ResumeWith', 'Return', 'Call', 'Try', 'Pop',
       'Arm', 'Throw', 'Destroy', 'Move', 'Swap', 'SetFP', 'Exit', 'Start', 'ResumeFail', 'Quit'])}
EV = {n: i for i, n in enumerate(['?', 'Enter', 'OnTop', 'Dtor', 'Unw', 'Catch', 'Terminate'])}
INVARIANTS = ['HandlesLinear', 'OneRunning', 'StackShape', 'ReleaseOrder', 'Atomic', 'QuitCleans']
PROPERTIES = ['Irreversible', 'FailAtomic', 'Frozen', 'FpLocal', 'OntopFirst', 'DestroyerWaits', 'DtorLifo']

def consts(c):
    return 'CONSTANTS NT=%d NC=%d NS=%d MaxDepth=%d MaxCmds=%d NFP=%d\nCmds={%s}\n' % (
        c['NT'], c['NC'], c['NS'], c['depth'], c['cmds'], c.get('NFP', 2), ','.join('"%s"' % x for x in c['Cmds']))

def merge(labels):
    """labels of one command and of the internal steps after it -> one step"""
    a, t, c, l, m, ev, obs = labels[0]
    ev = list(ev)
    for x in labels[1:]:
        ev += x[5]
        obs = x[6]
    return (a, t, c, l, m, tuple((EV[e[0]], e[1], e[2], e[3]) for e in ev), tuple(tuple(o) if isinstance(o, list) else o for o in obs))

def step_line(s):
    a, t, c, l, m, ev, obs = s
    out = [CMD[a], t, c, l, m, len(ev)]
    for e in ev: out += e
    if obs == (1,):
        out.append(1)
    elif obs[0] == 2:
        out.append(2)
        out += obs[1]
    else:
        out.append(0)
        for o in obs: out += o
    return ' '.join(map(str, out))

def path_of(steps):
    body = [step_line(s) for s in steps]
    h = int(hashlib.sha256('\n'.join(body).encode()).hexdigest()[:15], 16)
    return h, body

def model_check(c):
    """TLC checks the invariants and action properties of the specification exhaustively"""
    cfg = 'SPECIFICATION Spec\n' + consts(c) + 'VIEW View\nCHECK_DEADLOCK FALSE\n'
    cfg += 'INVARIANTS ' + ' '.join(INVARIANTS) + '\nPROPERTIES ' + ' '.join(PROPERTIES) + '\n'
    rc, out = tlc('Context', cfg, workers=NCPU, timeout=3000, heap='8g')
    st = tlc_stats(out)
    if rc != 0 or not st['ok']:
        raise CheckError('TLC on Context.tla: ' + st['tail'])
    return st

def exhaustive_paths(c, limit=None):
    """every transition of the specification within the bounds, as paths from the initial state"""
    cfg = 'SPECIFICATION Spec\n' + consts(c) + 'VIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n'
    cfg += 'INVARIANTS ' + ' '.join(INVARIANTS) + '\nPROPERTIES ' + ' '.join(PROPERTIES) + '\n'
    rc, out = tlc('Context', cfg, workers=1, timeout=900)
    st = tlc_stats(out)
    if rc != 0 or not st['ok']:
        raise CheckError('TLC on Context.tla: ' + st['tail'])
    ids, succ = {}, []
    def sid(x):
        h = hashlib.md5(x.encode()).digest()
        i = ids.get(h)
        if i is None:
            i = ids[h] = len(succ); succ.append([])
        return i
    lab = {}
    n_edges = 0
    for line in open(out, errors='replace'):
        if not line.startswith('<<"E", "'): continue
        p = line.rstrip('\n')[len('<<"E", "'):-len('">>')].split('", "')
        if len(p) != 3: raise CheckError('edge line: ' + line[:200])
        u, v = sid(p[0]), sid(p[1])
        l = lab.get(p[2])
        if l is None: l = lab[p[2]] = json.loads(p[2].replace('\\"', '"'))
        succ[u].append((v, l))
        n_edges += 1
    os.unlink(out)
    quiet = [None] * len(succ)
    # internal chains are deterministic
    def chase(v, l):
        ls = [l]
        while ls[-1][6] == [0]:
            if not succ[v]: return None
            v, l2 = succ[v][0]
            ls.append(l2)
        return v, merge(ls)
    edges = [[] for _ in succ]
    for u in range(len(succ)):
        for v, l in succ[u]:
            if l[0] == 'int': continue
            r = chase(v, l)
            if r: edges[u].append(r)
    # breadth-first tree
    pred = {0: None}
    order = [0]
    for u in order:
        for v, s in edges[u]:
            if v not in pred:
                pred[v] = (u, s); order.append(v)
    def to(u):
        r = []
        while pred[u] is not None:
            u, s = pred[u]; r.append(s)
        return r[::-1]
    todo = {u: list(range(len(edges[u]))) for u in order if edges[u]}
    total = sum(len(x) for x in todo.values())
    paths = []
    # longest first: deep edges carry the shallow ones on the way
    on_path = {}
    for u in reversed(order):
        while todo.get(u):
            steps = to(u)
            w = u
            # consume the tree edges on the way as well
            x = u
            while pred[x] is not None:
                y, s = pred[x]
                for k in todo.get(y, ()):
                    if edges[y][k][0] == x and edges[y][k][1] is s:
                        todo[y].remove(k); break
                x = y
            n = 0
            while todo.get(w) and n < 60:
                k = todo[w].pop()
                v, s = edges[w][k]
                steps.append(s); w = v; n += 1
            paths.append(steps)
    st['merged_transitions'] = total
    st['edges'] = n_edges
    st['paths'] = len(paths)
    return paths, st

def random_paths(c, weights, num, seed, procs=6, check=True):
    """random behaviours of c['cmds'] commands; procs TLC simulators with seeds of their own"""
    W = []
    for a, k in weights.items():
        W += [a] * k
    c = dict(c, Cmds=sorted(weights) + c.get('also', []))
    mod = '---- MODULE SimW ----\nEXTENDS ContextSim\nW == <<%s>>\n====\n' % ','.join('"%s"' % x for x in W)
    cfg = 'SPECIFICATION SimSpec\n' + consts(c) + 'CONSTANT Weights <- W\nCHECK_DEADLOCK FALSE\n'
    cfg += 'INVARIANTS Emit ' + ('OneRunning StackShape ReleaseOrder\n' if check else '\n')
    procs = max(1, min(procs, num // 50))
    with ThreadPoolExecutor(procs) as ex:
        runs = list(ex.map(lambda k: tlc('SimW', cfg, workers=1, module_text=mod, timeout=1500, heap='1g',
            extra=['-simulate', 'num=%d' % ((num + procs - 1) // procs), '-depth', '100000', '-seed', str(seed * 1000 + k)]), range(procs)))
    paths = []
    tot = dict(states=0, generated=0)
    for rc, out in runs:
        err = []
        for line in open(out, errors='replace'):
            if line.startswith('<<"B", "'):
                ls = json.loads(line.rstrip('\n')[len('<<"B", "'):-len('">>')].replace('\\"', '"'))
                steps, cur = [], []
                for l in ls:
                    if l[0] != 'int':
                        if cur: steps.append(merge(cur))
                        cur = []
                    cur.append(l)
                if cur: steps.append(merge(cur))
                paths.append(steps)
            else: err.append(line)
        st = tlc_stats(out)
        if 'Error:' in ''.join(err) or rc < 0:
            raise CheckError('TLC simulation: ' + ''.join(err[-40:]))
        os.unlink(out)
        tot['states'] += st['states']; tot['generated'] += st['generated']
    tot['paths'] = len(paths)
    return paths, tot

def write_paths(file, c, paths):
    with open(file, 'w') as f:
        f.write('%d %d %d\n' % (c['NT'], c['NC'], c['NS']))
        seen = set()
        for steps in paths:
            h, body = path_of(steps)
            if h in seen or not body: continue
            seen.add(h)
            f.write('P %d %d\n' % (h, len(body)) + '\n'.join(body) + '\n')
    return len(seen)

def pretty(steps):
    inv = {v: k for k, v in EV.items()}
    out = []
    for i, (a, t, c, l, m, ev, obs) in enumerate(steps):
        s = '%3d  thread %d context %d: %s l=%d m=%d' % (i, t, c, a, l, m)
        if ev: s += '  events ' + ' '.join('%s(ctx %d, frame %d, %d)' % (inv[e[0]], e[1], e[2], e[3]) for e in ev)
        if obs == (1,): s += '  -> std::terminate'
        elif obs[0] == 2: s += '  -> end of the process, released %s' % list(obs[1])
        else: s += '  -> runs %s depth %s handle %s slots %s fp %s released %s' % tuple(list(x) for x in obs[:6])
        out.append(s)
    return '\n'.join(out)

# ---------------------------------------------------------------- replay
def run_replay(exe, env, pathfile, seed, workers=NCPU, only=None, budget=0, timeout=20, wall=850):
    out = tempfile.mktemp(dir=SCRATCH)
    e = dict(os.environ); e.update(env)
    e['REPLAY_TIMEOUT'] = str(timeout)
    if budget: e['REPLAY_BUDGET'] = str(budget)
    cmd = [exe, pathfile, out, str(workers), str(seed)] + ([str(only)] if only is not None else [])
    try:
        r = sh(cmd, env=e, timeout=wall)
    except subprocess.TimeoutExpired:
        raise CheckError('replay timed out: ' + ' '.join(cmd))
    res, summ = [], None
    if os.path.exists(out):
        for line in open(out, errors='replace'):
            try: d = json.loads(line)
            except ValueError: continue
            if 'summary' in d: summ = d
            else: res.append(d)
        os.unlink(out)
    if summ is None:
        raise CheckError('replay failed (%d): %s' % (r.returncode, r.stdout[-2000:]))
    return res, summ, r.stdout

# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, prop, level, technique=''):
        self.prop = prop; self.level = level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.findings = self.load_findings()
        self.hit = set()
    def load_findings(self):
        r = []
        f = VERIF + '/KNOWN_FINDINGS.txt'
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r'finding: property=(\S+) (\S+) (.*)', line.strip())
                if m and m.group(1) == self.prop: r.append((m.group(2), m.group(3)))
        return r
    def add(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n
    def sample(self, s, most=6):
        if len(self.cov['samples']) < most: self.cov['samples'].append(s)
    def violation(self, key, what, files=None):
        """key identifies the failing case; files: name -> text kept as the replay"""
        for k, txt in self.findings:
            if k == key.replace(' ', '_'):
                if key not in self.hit: print('KNOWN-FINDING: property=%s %s' % (self.prop, txt), flush=True)
                self.hit.add(key)
                return
        d = '%s/replays/%s/%s' % (VERIF, self.prop, hashlib.sha1(key.encode()).hexdigest()[:12])
        os.makedirs(d, exist_ok=True)
        for n, t in (files or {}).items(): open(d + '/' + n, 'w').write(t)
        open(d + '/what.txt', 'w').write(key + '\n' + what + '\n')
        self.violations.append((key, what, d))
        if len(self.violations) <= 5:
            print(what)
            print('VIOLATION property=%s replay=%s' % (self.prop, d), flush=True)
    def finish(self):
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        cov = dict(self.cov); cov.update(self.extra)
        json.dump(dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                       assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.violations)),
                  open('%s/evidence/%s.json' % (VERIF, self.prop), 'w'), indent=1)
        log('%s: %s' % (self.prop, 'VIOLATED' if self.violations else 'held on everything explored'),
            json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))}))
        return 1 if self.violations else 0
