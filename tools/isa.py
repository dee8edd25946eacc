"""Small instruction set emulators: enough of each to run the assembler routines of src/asm as disassembled by llvm-objdump.
An instruction that is not known raises Unknown: nothing is then decided about the target."""
import re, subprocess

class Fault(Exception): pass
class Unknown(Exception): pass

def sx(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v

class Mem:
    def __init__(m, big):
        m.e = 'big' if big else 'little'
        m.regions = []          # lo, hi, bytearray, name
        m.allow = None          # ranges that may be written; None: no check
    def add(m, lo, size, name):
        m.regions.append((lo, lo + size, bytearray(size), name)); return m.regions[-1]
    def find(m, a, n):
        for r in m.regions:
            if r[0] <= a and a + n <= r[1]: return r
        raise Fault('access to 0x%x, which is no memory' % a)
    def rd(m, a, n):
        r = m.find(a, n); o = a - r[0]
        return int.from_bytes(r[2][o:o + n], m.e)
    def wr(m, a, n, v, check=True):
        r = m.find(a, n); o = a - r[0]
        if check and m.allow is not None:
            for lo, hi in m.allow:
                if lo <= a and a + n <= hi: break
            else: raise Fault('write of %d bytes at 0x%x (%s+0x%x), which belongs to the program' % (n, a, r[3], a - r[0]))
        r[2][o:o + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, m.e)

class Insn:
    __slots__ = ('pc', 'npc', 'mn', 'ops', 'rel', 'f', 'text')

def disassemble(obj, base, flags=()):
    """-> list of Insn, dict of labels; addresses relative to base"""
    out = subprocess.run(['llvm-objdump-18', '-dr', '--no-show-raw-insn', *flags, obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    ins, labels, text = [], {}, False
    for line in out.split('\n'):
        m = re.match(r'Disassembly of section (\S+):', line)
        if m: text = 'text' in m.group(1).lower() or 'code' in m.group(1).lower(); continue
        if not text: continue
        m = re.match(r'([0-9a-f]+) <(.*)>:', line)
        if m: labels[m.group(2)] = base + int(m.group(1), 16); continue
        m = re.match(r'\s+([0-9a-f]+):\s+((?:R_|IMAGE_|ARM|GENERIC_|X86_|VANILLA|PPC)\S*)\s*(\S*)', line)
        if m:
            a, t, s = base + int(m.group(1), 16), m.group(2), m.group(3)
            if 'RELAX' in t or not ins: continue
            ins[-1].rel.append((t, s, a)); continue
        m = re.match(r'\s+([0-9a-f]+):\s+(\S+)\s*(.*)', line)
        if m:
            i = Insn(); i.pc = base + int(m.group(1), 16); i.mn = m.group(2); i.ops = m.group(3); i.rel = []; i.f = None; i.text = line.strip()
            if ins: ins[-1].npc = i.pc
            i.npc = i.pc + 4
            ins.append(i)
    return ins, labels

def num(s):
    s = s.strip().lstrip('#$')
    neg = s.startswith('-')
    if neg: s = s[1:]
    v = int(s, 16) if s.lower().startswith('0x') else int(s)
    return -v if neg else v

class CPU:
    word = 8; big = False; sp = 'sp'
    delay = False
    objdump = ()
    def __init__(c):
        c.R = {}; c.mem = Mem(c.big); c.pc = 0; c.npc = None; c.code = {}; c.mask = (1 << (8 * c.word)) - 1; c.env = {}
        c.sym = {}; c.trace = []
        c.tick = None
    def load(c, objs, base):
        """objs: name -> object file"""
        c.labels = {}; c.objbase = {}; c.lits = []
        for k, (n, o) in enumerate(sorted(objs.items())):
            ins, lab = disassemble(o, base + k * 0x10000, c.objdump)
            if not ins: raise Unknown('no instructions in %s' % n)
            c.objbase[n] = base + k * 0x10000
            ent = lab.get(n + '_fcontext', lab.get('_' + n + '_fcontext', lab.get('.' + n + '_fcontext', ins[0].pc)))
            c.labels[n] = ent
            loc = {}
            for l, a in lab.items():
                loc[l] = a
                if l == 'Lexitp': c.lits.append(a)
            for i in ins:
                c.code[i.pc] = i
                try: i.f = c.decode(i, loc, base + k * 0x10000)
                except Unknown as e: i.f = c._unknown(str(e) or i.text)
                except (ValueError, IndexError, KeyError, AttributeError) as e: i.f = c._unknown(i.text)
    def _unknown(c, t):
        def f(c): raise Unknown(t)
        return f
    def target(c, sym, loc):
        """address of a symbol (+ addend)"""
        add = 0
        m = re.match(r'(.*?)([+-]0x[0-9a-f]+)$', sym)
        if m: sym, add = m.group(1), int(m.group(2), 16)
        if sym.startswith('.text') or sym in ('__text',): return c._base + add
        if sym in loc: return loc[sym] + add
        for s in (sym, sym.lstrip('_'), sym.lstrip('._')):
            if s in c.sym: return c.sym[s] + add
        raise Unknown('symbol ' + sym)
    def run(c, stop, limit=3000):
        """executes until pc is in stop()"""
        n = 0
        c.npc = c.pend = None
        while not stop(c.pc):
            i = c.code.get(c.pc)
            if i is None: raise Fault('execution of 0x%x, which is no code' % c.pc)
            n += 1
            if n > limit: raise Fault('does not end')
            c.trace.append(i)
            if c.tick: c.tick(c)
            if c.delay:
                d, c.pend, c.npc = c.pend, None, None
                i.f(c)
                c.pc = i.npc if d is None else d
                c.pend = c.npc
            else:
                c.pc = i.npc
                i.f(c)

# ------------------------------------------------------------------ x86
class X86(CPU):
    sp = 'rsp'
    names64 = 'rax rbx rcx rdx rsi rdi rbp rsp'.split() + ['r%d' % k for k in range(8, 16)]
    def __init__(c):
        CPU.__init__(c)
        c.alias = {}
        for n in c.names64:
            c.alias[n] = (n, 8)
            if n[1] in '0123456789': c.alias[n + 'd'] = (n, 4)
            else: c.alias['e' + n[1:]] = (n, 4)
        for n in c.names64: c.R[n] = 0
        for k in range(16): c.R['xmm%d' % k] = 0
        c.zf = 0; c.seg = {}
        c.cw = 0x37f; c.mxcsr = 0x1f80
        c.ssp = None; c.ss = {}; c.ssname = lambda a: False     # shadow stack: pointer, contents, is it one?
    # shadow stacks (CET)
    def ssrd(c, a):
        if a % 8 or not c.ssname(a): raise Fault('0x%x is not on a shadow stack' % a)
        return c.ss.get(a, 0)
    def sswr(c, a, v):
        if a % 8 or not c.ssname(a): raise Fault('0x%x is not on a shadow stack' % a)
        c.ss[a] = v
    def sspush(c, v):
        if c.ssp is not None: c.ssp -= 8; c.sswr(c.ssp, v)
    def sspop(c, v):
        if c.ssp is not None:
            x = c.ssrd(c.ssp)
            if x != v: raise Fault('return to 0x%x, the shadow stack has 0x%x' % (v, x))
            c.ssp += 8
    def rstorssp(c, a):
        t = c.ssrd(a)
        if t & 3 != 1 or ((t & ~1) - 8) & ~7 != a: raise Fault('0x%x at 0x%x is not a token to restore a shadow stack' % (t, a))
        c.sswr(a, c.ssp | 3); c.ssp = a
    def saveprevssp(c):
        t = c.ssrd(c.ssp)
        if not t & 2: raise Fault('no token of a previous shadow stack')
        c.ssp += 8; o = t & ~3
        c.sswr(o - 8, o | 1)
    def getr(c, n):
        r, w = c.alias[n]
        return c.R[r] & ((1 << (8 * w)) - 1)
    def setr(c, n, v):
        r, w = c.alias[n]
        c.R[r] = v & ((1 << (8 * w)) - 1)
    def operands(c, s):
        out, depth, cur = [], 0, ''
        for ch in s:
            if ch == '(': depth += 1
            if ch == ')': depth -= 1
            if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur.strip())
        return out
    def ea(c, o, i):
        m = re.match(r'(?:%(\w\w):)?(-?(?:0x)?[0-9a-f]*)(?:\(([^)]*)\))?$', o)
        if not m: raise Unknown(i.text)
        seg, disp, reg = m.groups()
        d = num(disp) if disp else 0
        rs = [r.strip() for r in reg.split(',')] if reg else []
        if rs and rs[0] == '%rip':
            a = c.target(i.rel[0][1], c._loc) if i.rel else i.npc + d
            return lambda c: a
        for r in i.rel:
            if 'ADDR32' in r[0] or 'DIR32' in r[0] or r[0] in ('R_X86_64_32', 'R_X86_64_32S', 'R_386_32'): d = c.target(r[1], c._loc)
        base = rs[0][1:] if rs and rs[0] else None
        idx = rs[1][1:] if len(rs) > 1 else None
        sc = int(rs[2]) if len(rs) > 2 else 1
        mask = c.mask
        def f(c):
            a = d
            if base: a += c.getr(base)
            if idx: a += c.getr(idx) * sc
            a &= mask
            if seg: a = (a + c.seg[seg]) & mask
            return a
        return f
    def decode(c, i, loc, b):
        c._base = b; c._loc = loc
        mn, W = i.mn, c.word
        t = re.sub(r'\s*(#.*|<.*>)$', '', i.ops.split('#')[0].strip()).strip()
        star = t.startswith('*')
        if star: t = t[1:]
        ops = c.operands(t)
        if mn in ('nop', 'endbr64', 'endbr32', 'nopw', 'nopl', 'wait'): return lambda c: None
        if mn == 'hlt':
            def f(c): raise Fault('hlt')
            return f
        def get(o, w):
            if o.startswith('$'):
                v = num(o[1:])
                for r in i.rel:
                    if 'DIR32' in r[0] or 'VANILLA' in r[0] or r[0] == 'R_386_32': v = c.target(r[1], loc)
                    elif 'GOTPC' in r[0]: v = (v + c.gotv - (i.npc - 4)) & c.mask
                v &= (1 << (8 * w)) - 1
                return lambda c: v
            if o.startswith('%') and ':' not in o:
                n = o[1:]
                return lambda c: c.getr(n) & ((1 << (8 * w)) - 1)
            e = c.ea(o, i)
            return lambda c: c.mem.rd(e(c), w)
        def put(o, w):
            if o.startswith('%') and ':' not in o:
                n = o[1:]
                return lambda c, v: c.setr(n, v & ((1 << (8 * w)) - 1))
            e = c.ea(o, i)
            return lambda c, v: c.mem.wr(e(c), w, v)
        suffix = {'l': 4, 'q': 8, 'w': 2, 'b': 1}
        if mn in ('movaps', 'movups', 'movapd', 'movupd', 'movdqa', 'movdqu'):
            al = mn[3] == 'a' or mn == 'movdqa'
            if ops[0].startswith('%xmm') and not ops[1].startswith('%'):
                x = ops[0][1:]; e = c.ea(ops[1], i)
                def f(c):
                    a = e(c)
                    if al and a % 16: raise Fault('%s to the misaligned address 0x%x' % (mn, a))
                    c.mem.wr(a, 16, c.R[x])
                return f
            if ops[1].startswith('%xmm') and not ops[0].startswith('%'):
                x = ops[1][1:]; e = c.ea(ops[0], i)
                def f(c):
                    a = e(c)
                    if al and a % 16: raise Fault('%s from the misaligned address 0x%x' % (mn, a))
                    c.R[x] = c.mem.rd(a, 16)
                return f
            x, y = ops[0][1:], ops[1][1:]
            def f(c): c.R[y] = c.R[x]
            return f
        if mn in ('stmxcsr', 'ldmxcsr', 'fnstcw', 'fstcw', 'fldcw'):
            e = c.ea(ops[0], i)
            if mn == 'stmxcsr': return lambda c: c.mem.wr(e(c), 4, c.mxcsr)
            if mn in ('fnstcw', 'fstcw'): return lambda c: c.mem.wr(e(c), 2, c.cw)
            if mn == 'ldmxcsr':
                def f(c): c.mxcsr = c.mem.rd(e(c), 4)
                return f
            def f(c): c.cw = c.mem.rd(e(c), 2)
            return f
        m = re.match(r'(movabs|mov|lea|and|or|xor|add|sub|neg|inc|dec|xchg|test|cmp|shl|shr|push|pop)(l|q|w|b)?$', mn)
        if m:
            k, w = m.group(1), suffix.get(m.group(2), W)
            if k in ('mov', 'movabs'):
                g, p = get(ops[0], w), put(ops[1], w)
                return lambda c: p(c, g(c))
            if k == 'lea':
                e, p = c.ea(ops[0], i), put(ops[1], w)
                return lambda c: p(c, e(c))
            if k in ('and', 'or', 'xor', 'add', 'sub', 'test', 'cmp'):
                g, h = get(ops[0], w), get(ops[1], w)
                p = put(ops[1], w) if k not in ('test', 'cmp') else None
                mk = (1 << (8 * w)) - 1
                op = dict(zip(('and', 'or', 'xor', 'add', 'sub', 'test', 'cmp'),
                    (lambda a, b: a & b, lambda a, b: a | b, lambda a, b: a ^ b, lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a & b, lambda a, b: a - b)))[k]
                def f(c):
                    v = op(h(c), g(c)) & mk
                    c.zf = v == 0
                    if p: p(c, v)
                return f
            if k in ('neg', 'inc', 'dec'):
                g, p = get(ops[0], w), put(ops[0], w)
                mk = (1 << (8 * w)) - 1
                op = dict(neg=lambda a: -a, inc=lambda a: a + 1, dec=lambda a: a - 1)[k]
                def f(c):
                    v = op(g(c)) & mk; c.zf = v == 0; p(c, v)
                return f
            if k in ('shl', 'shr'):
                n = num(ops[0][1:]); g, p = get(ops[1], w), put(ops[1], w)
                if k == 'shl': return lambda c: p(c, g(c) << n)
                return lambda c: p(c, g(c) >> n)
            if k == 'xchg':
                g, h, p, q = get(ops[0], w), get(ops[1], w), put(ops[0], w), put(ops[1], w)
                def f(c):
                    x, y = g(c), h(c); p(c, y); q(c, x)
                return f
            if k == 'push':
                g = get(ops[0], W)
                def f(c):
                    v = g(c); c.R['rsp'] = (c.R['rsp'] - W) & c.mask; c.mem.wr(c.R['rsp'], W, v)
                return f
            if k == 'pop':
                p = put(ops[0], W)
                def f(c):
                    v = c.mem.rd(c.R['rsp'], W); c.R['rsp'] = (c.R['rsp'] + W) & c.mask; p(c, v)
                return f
        if mn in ('call', 'callq', 'calll', 'jmp', 'jmpq', 'jmpl'):
            if star: g = get(ops[0], W)
            elif i.rel:
                a = c.target(re.sub(r'-0x4$', '', i.rel[0][1]), loc)
                g = lambda c: a
            else:
                a = b + num('0x' + ops[0].replace('0x', ''))
                g = lambda c: a
            if mn.startswith('call'):
                def f(c):
                    v = g(c); c.R['rsp'] = (c.R['rsp'] - W) & c.mask; c.mem.wr(c.R['rsp'], W, i.npc); c.pc = v
                    c.sspush(i.npc)
                return f
            def f(c): c.pc = g(c)
            return f
        if mn in ('je', 'jne', 'jz', 'jnz'):
            a = b + num('0x' + ops[0].replace('0x', '')); want = mn in ('je', 'jz')
            def f(c):
                if bool(c.zf) == want: c.pc = a
            return f
        if mn in ('ret', 'retq', 'retl'):
            n = num(ops[0][1:]) if ops else 0
            def f(c):
                v = c.mem.rd(c.R['rsp'], W); c.R['rsp'] = (c.R['rsp'] + W + n) & c.mask; c.pc = v
                c.sspop(v)
            return f
        if mn == 'rdsspq':
            p = put(ops[0], 8)
            def f(c):
                if c.ssp is not None: p(c, c.ssp)
            return f
        if mn == 'incsspq':
            g = get(ops[0], 8)
            def f(c):
                c.ssrd(c.ssp); c.ssp += 8 * (g(c) & 255)
            return f
        if mn == 'rstorssp':
            e = c.ea(ops[0], i); return lambda c: c.rstorssp(e(c))
        if mn == 'saveprevssp': return lambda c: c.saveprevssp()
        raise Unknown(i.text)
class I386(X86):
    word = 4

# ------------------------------------------------------------------ arm64
def split_ops(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '[{(': depth += 1
        if ch in ']})': depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class ARM64(CPU):
    def __init__(c):
        CPU.__init__(c)
        for k in range(31): c.R['x%d' % k] = 0
        c.R['sp'] = 0
        for k in range(32): c.R['d%d' % k] = 0
        c.zf = 0
    def decode(c, i, loc, b):
        c._base = b
        mn = i.mn
        t = re.sub(r'\s*(//.*|<.*>)$', '', re.split(r'//|;', i.ops)[0].strip()).strip()
        ops = split_ops(t)
        def get(o):
            if o.startswith('#'):
                v = num(o); return lambda c: v
            if o in ('xzr', 'wzr'): return lambda c: 0
            if o[0] == 'w':
                n = 'x' + o[1:]; return lambda c: c.R[n] & 0xffffffff
            o = {'fp': 'x29', 'lr': 'x30'}.get(o, o)
            if o not in c.R: raise Unknown(i.text)
            return lambda c: c.R[o]
        def put(o):
            if o in ('xzr', 'wzr'): return lambda c, v: None
            if o[0] == 'w':
                n = 'x' + o[1:]
                def f(c, v): c.R[n] = v & 0xffffffff
                return f
            o = {'fp': 'x29', 'lr': 'x30'}.get(o, o)
            if o not in c.R: raise Unknown(i.text)
            def f(c, v): c.R[o] = v & c.mask
            return f
        if mn in ('nop', 'bti', 'hint'): return lambda c: None
        if mn in ('paciasp', 'autiasp'): return lambda c: None
        if mn in ('add', 'sub', 'and', 'orr', 'eor'):
            p, g, h = put(ops[0]), get(ops[1]), get(ops[2])
            if len(ops) > 3: raise Unknown(i.text)
            op = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, orr=lambda a, b: a | b, eor=lambda a, b: a ^ b)
            op['and'] = lambda a, b: a & b
            op = op[mn]
            return lambda c: p(c, op(g(c), h(c)))
        if mn == 'mov':
            p, g = put(ops[0]), get(ops[1]); return lambda c: p(c, g(c))
        if mn == 'adr':
            p = put(ops[0])
            a = c.target(i.rel[0][1], loc) if i.rel else b + num(ops[1].split()[0])
            return lambda c: p(c, a)
        if mn in ('ldp', 'stp', 'ldr', 'str', 'ldur', 'stur'):
            pair = mn in ('ldp', 'stp')
            regs = ops[:2] if pair else ops[:1]
            m = re.match(r'\[([^\]]*)\](!)?$', ops[2 if pair else 1])
            if not m: raise Unknown(i.text)
            inner = split_ops(m.group(1))
            pre = bool(m.group(2))
            base = get(inner[0]); pb = put(inner[0])
            off = num(inner[1]) if len(inner) > 1 else 0
            post = num(ops[3 if pair else 2]) if len(ops) > (3 if pair else 2) else None
            w = {'x': 8, 'd': 8, 'w': 4, 's': 4, 'q': 16}[regs[0][0]] if regs[0] not in ('xzr', 'fp', 'lr') else 8
            gs, ps = [get(r) for r in regs], [put(r) for r in regs]
            st = mn.startswith('st')
            issp = inner[0] == 'sp'
            def f(c):
                a = base(c)
                if issp and a % 16: raise Fault('sp is not aligned to 16 bytes')
                e = (a + off) & c.mask
                if st:
                    for k, g in enumerate(gs): c.mem.wr(e + k * w, w, g(c))
                    v = None
                else: v = [c.mem.rd(e + k * w, w) for k in range(len(ps))]
                if pre: pb(c, e)
                if post is not None: pb(c, (a + post) & c.mask)
                if v is not None:
                    for p, x in zip(ps, v): p(c, x)
            return f
        if mn in ('ret', 'br', 'blr'):
            g = get(ops[0] if ops else 'x30')
            def f(c):
                v = g(c)
                if mn == 'blr': c.R['x30'] = i.npc
                c.pc = v
            return f
        if mn in ('b', 'bl'):
            a = c.target(i.rel[0][1], loc) if i.rel else b + num(ops[0].split()[0])
            def f(c):
                if mn == 'bl': c.R['x30'] = i.npc
                c.pc = a
            return f
        raise Unknown(i.text)

# ------------------------------------------------------------------ arm
class ARM(CPU):
    word = 4
    al = dict(sb='r9', sl='r10', fp='r11', ip='r12')
    def __init__(c):
        CPU.__init__(c)
        for k in range(13): c.R['r%d' % k] = 0
        c.R['sp'] = c.R['lr'] = 0
        for k in range(32): c.R['d%d' % k] = 0
        c.teb = 0
    def decode(c, i, loc, b):
        c._base = b
        mn = i.mn
        t = re.sub(r'\s*(@.*|<.*>)$', '', i.ops.split('@')[0].strip()).strip()
        ops = split_ops(t)
        N = lambda o: c.al.get(o, o)
        def get(o):
            if o.startswith('#'):
                v = num(o) & c.mask; return lambda c: v
            o = N(o)
            if o == 'pc':
                v = i.pc + 8; return lambda c: v
            if o not in c.R: raise Unknown(i.text)
            return lambda c: c.R[o]
        def put(o):
            o = N(o)
            if o == 'pc':
                def f(c, v): c.pc = v
                return f
            if o not in c.R: raise Unknown(i.text)
            def f(c, v): c.R[o] = v & c.mask
            return f
        def rl(o):
            out = []
            for x in o.strip('{}').split(','):
                x = x.strip()
                m = re.match(r'([rd])(\d+)-[rd](\d+)$', x)
                if m: out += [m.group(1) + str(k) for k in range(int(m.group(2)), int(m.group(3)) + 1)]
                else: out.append(N(x))
            return out
        if mn == 'nop': return lambda c: None
        if mn in ('add', 'sub', 'bic', 'orr', 'and', 'eor', 'rsb'):
            if len(ops) == 2: ops = [ops[0]] + ops
            p, g, h = put(ops[0]), get(ops[1]), get(ops[2])
            op = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, bic=lambda a, b: a & ~b, orr=lambda a, b: a | b, eor=lambda a, b: a ^ b, rsb=lambda a, b: b - a)
            op['and'] = lambda a, b: a & b
            op = op[mn]
            return lambda c: p(c, op(g(c), h(c)))
        if mn == 'mov':
            p, g = put(ops[0]), get(ops[1]); return lambda c: p(c, g(c))
        if mn in ('adr',):
            p = put(ops[0]); a = (i.pc + 8 + num(ops[1])) & c.mask
            return lambda c: p(c, a)
        if mn in ('ldr', 'str'):
            m = re.match(r'\[([^\]]*)\](!)?$', ops[1])
            inner = split_ops(m.group(1)); pre = bool(m.group(2))
            base, pb = get(inner[0]), put(inner[0]) if inner[0] != 'pc' else None
            off = num(inner[1]) if len(inner) > 1 else 0
            post = num(ops[2]) if len(ops) > 2 else None
            g, p = get(ops[0]), put(ops[0])
            def f(c):
                a = base(c); e = (a + off) & c.mask
                if mn == 'str': c.mem.wr(e, 4, g(c)); v = None
                else: v = c.mem.rd(e, 4)
                if pre: pb(c, e)
                if post is not None: pb(c, a + post)
                if v is not None: p(c, v)
            return f
        if mn in ('push', 'pop'):
            rs = rl(ops[0])
            gs, ps = [get(r) for r in rs], [put(r) for r in rs]
            if mn == 'push':
                def f(c):
                    v = [g(c) for g in gs]; c.R['sp'] = (c.R['sp'] - 4 * len(v)) & c.mask
                    for k, x in enumerate(v): c.mem.wr(c.R['sp'] + 4 * k, 4, x)
            else:
                def f(c):
                    s = c.R['sp']; v = [c.mem.rd(s + 4 * k, 4) for k in range(len(ps))]
                    c.R['sp'] = (s + 4 * len(ps)) & c.mask
                    for p, x in zip(ps, v): p(c, x)
            return f
        if mn in ('vpush', 'vpop'): mn, ops = {'vpush': 'vstmdb', 'vpop': 'vldmia'}[mn], ['sp!'] + ops
        if mn in ('vstmia', 'vldmia', 'vstmdb'):
            wb = ops[0].endswith('!'); base = N(ops[0].rstrip('!')); rs = rl(ops[1])
            def f(c):
                a = c.R[base]
                if a % 4: raise Fault('misaligned')
                if mn == 'vstmdb': a -= 8 * len(rs)
                for k, r in enumerate(rs):
                    if mn == 'vldmia': c.R[r] = c.mem.rd(a + 8 * k, 8)
                    else: c.mem.wr(a + 8 * k, 8, c.R[r])
                if wb: c.R[base] = a if mn == 'vstmdb' else a + 8 * len(rs)
            return f
        if mn in ('bx', 'blx'):
            g = get(ops[0])
            def f(c):
                v = g(c)
                if mn == 'blx': c.R['lr'] = i.npc
                c.pc = v
            return f
        if mn in ('b', 'bl'):
            if i.rel: a = c.target(i.rel[0][1], loc)
            else:
                m = re.search(r'imm = #(-?0x[0-9a-f]+)', i.text)
                a = i.pc + 8 + int(m.group(1), 16) if m else b + num(ops[0].split()[0])
            def f(c):
                if mn == 'bl': c.R['lr'] = i.npc
                c.pc = a
            return f
        if mn == 'mrc' or mn == 'mcr':
            o = [x.replace('#0x', '#') for x in ops]
            p, g = put(ops[2]), get(ops[2])
            key = ','.join(o[:2] + o[3:])
            if mn == 'mrc':
                def f(c): p(c, c.cp(key))
                return f
            def f(c): c.setcp(key, g(c))
            return f
        raise Unknown(i.text)
    objdump = ('--mcpu=cortex-a8',)
    def cp(c, key): raise Unknown('coprocessor ' + key)
    setcp = cp

# ------------------------------------------------------------------ riscv64
class RISCV(CPU):
    def __init__(c):
        CPU.__init__(c)
        for n in 'ra sp gp tp'.split() + ['t%d' % k for k in range(7)] + ['s%d' % k for k in range(12)] + ['a%d' % k for k in range(8)]: c.R[n] = 0
        for n in ['ft%d' % k for k in range(12)] + ['fs%d' % k for k in range(12)] + ['fa%d' % k for k in range(8)]: c.R[n] = 0
    def decode(c, i, loc, b):
        c._base = b
        mn = i.mn
        ops = split_ops(re.sub(r'\s*<.*>$', '', i.ops.strip()))
        def get(o):
            if o == 'zero': return lambda c: 0
            if o == 'fp': o = 's0'
            if o in c.R: return lambda c: c.R[o]
            raise Unknown(i.text)
        def put(o):
            if o == 'zero': return lambda c, v: None
            if o == 'fp': o = 's0'
            if o not in c.R: raise Unknown(i.text)
            def f(c, v): c.R[o] = v & c.mask
            return f
        rel = {r[0]: r for r in i.rel}
        if mn == 'nop': return lambda c: None
        if mn in ('addi', 'andi', 'add', 'sub', 'and', 'or', 'xor', 'ori', 'xori'):
            p, g = put(ops[0]), get(ops[1])
            if mn in ('addi', 'andi', 'ori', 'xori'):
                v = num(ops[2]); h = lambda c: v
            else: h = get(ops[2])
            op = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[mn.rstrip('i') if mn not in ('and', 'add', 'sub', 'or', 'xor') else mn]
            return lambda c: p(c, op(g(c), h(c)))
        if mn == 'mv':
            p, g = put(ops[0]), get(ops[1])
            if any('PCREL_LO12' in k for k in rel):
                return c._pclo(i, rel, loc, p, g)
            return lambda c: p(c, g(c))
        if mn == 'li':
            p, v = put(ops[0]), num(ops[1]); return lambda c: p(c, v)
        if mn == 'auipc':
            p = put(ops[0])
            if i.rel:
                a = c.target(i.rel[0][1], loc)
                # the whole address; the instruction that adds the low part adds nothing more
                c._pc = getattr(c, '_pc', {}); c._pc[i.pc] = a
                return lambda c: p(c, a)
            v = num(ops[1]) << 12
            return lambda c: p(c, i.pc + v)
        m = re.match(r'(f?)(l|s)(d|w)$', mn)
        if m:
            w = {'d': 8, 'w': 4}[m.group(3)]
            mm = re.match(r'(-?(?:0x)?[0-9a-f]+)?\((\w+)\)$', ops[1])
            off = num(mm.group(1)) if mm.group(1) else 0
            base = get(mm.group(2))
            if m.group(2) == 's':
                g = get(ops[0]); return lambda c: c.mem.wr((base(c) + off) & c.mask, w, g(c))
            p = put(ops[0])
            return lambda c: p(c, c.mem.rd((base(c) + off) & c.mask, w) if w == 8 else sx(c.mem.rd((base(c) + off) & c.mask, w), 32))
        if mn in ('ret', 'jr', 'jalr'):
            if mn == 'jalr' and len(ops) == 1: link, r = 'ra', ops[0]
            elif mn == 'jalr': raise Unknown(i.text)
            else: link, r = None, ops[0].split('(')[-1].rstrip(')') if ops else 'ra'
            g = get(r)
            def f(c):
                v = g(c)
                if link: c.R[link] = i.npc
                c.pc = v
            return f
        if mn in ('j', 'jal', 'call', 'tail'):
            a = c.target(i.rel[0][1], loc) if i.rel else b + num(ops[-1])
            def f(c):
                if mn in ('jal', 'call'): c.R['ra'] = i.npc
                c.pc = a
            return f
        raise Unknown(i.text)
    def _pclo(c, i, rel, loc, p, g):
        return lambda c: p(c, g(c))

# ------------------------------------------------------------------ loongarch64
class LOONG(CPU):
    sp = '$sp'
    def __init__(c):
        CPU.__init__(c)
        for n in '$ra $tp $sp $fp $r21'.split() + ['$a%d' % k for k in range(8)] + ['$t%d' % k for k in range(9)] + ['$s%d' % k for k in range(9)]: c.R[n] = 0
        for n in ['$fa%d' % k for k in range(8)] + ['$ft%d' % k for k in range(16)] + ['$fs%d' % k for k in range(8)]: c.R[n] = 0
    def decode(c, i, loc, b):
        c._base = b
        mn = i.mn
        ops = split_ops(re.sub(r'\s*<.*>$', '', i.ops.strip()))
        def get(o):
            if o == '$zero': return lambda c: 0
            if o not in c.R: raise Unknown(i.text)
            return lambda c: c.R[o]
        def put(o):
            if o == '$zero': return lambda c, v: None
            if o not in c.R: raise Unknown(i.text)
            def f(c, v): c.R[o] = v & c.mask
            return f
        if mn == 'nop': return lambda c: None
        if mn in ('addi.d', 'ori', 'andi'):
            p, g, v = put(ops[0]), get(ops[1]), num(ops[2])
            if i.rel:
                if 'PCALA_LO12' in i.rel[0][0]:
                    a = c.target(i.rel[0][1], loc)
                    v = sx(a & 0xfff, 12)
                else: raise Unknown(i.text)
            if mn == 'addi.d': return lambda c: p(c, g(c) + v)
            if mn == 'ori': return lambda c: p(c, g(c) | v)
            return lambda c: p(c, g(c) & v)
        if mn in ('add.d', 'sub.d', 'and', 'or', 'xor'):
            p, g, h = put(ops[0]), get(ops[1]), get(ops[2])
            op = {'add.d': lambda a, b: a + b, 'sub.d': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[mn]
            return lambda c: p(c, op(g(c), h(c)))
        if mn == 'pcalau12i':
            p = put(ops[0])
            if not i.rel: raise Unknown(i.text)
            a = c.target(i.rel[0][1], loc)
            v = (a + 0x800) & ~0xfff
            return lambda c: p(c, v)
        if mn == 'bstrins.d':
            p, g, h, m, l = put(ops[0]), get(ops[0]), get(ops[1]), num(ops[2]), num(ops[3])
            mk = ((1 << (m - l + 1)) - 1) << l
            return lambda c: p(c, (g(c) & ~mk) | ((h(c) << l) & mk))
        if mn == 'move':
            p, g = put(ops[0]), get(ops[1]); return lambda c: p(c, g(c))
        if mn in ('st.d', 'fst.d'):
            g, h, v = get(ops[0]), get(ops[1]), num(ops[2]); return lambda c: c.mem.wr((h(c) + v) & c.mask, 8, g(c))
        if mn in ('ld.d', 'fld.d'):
            p, h, v = put(ops[0]), get(ops[1]), num(ops[2]); return lambda c: p(c, c.mem.rd((h(c) + v) & c.mask, 8))
        if mn in ('ret', 'jr'):
            g = get(ops[0] if ops else '$ra')
            def f(c): c.pc = g(c)
            return f
        if mn == 'jirl':
            p, g, v = put(ops[0]), get(ops[1]), num(ops[2])
            def f(c):
                a = g(c) + v; p(c, i.npc); c.pc = a
            return f
        if mn in ('b', 'bl'):
            a = c.target(i.rel[0][1], loc) if i.rel else i.pc + num(ops[0])
            def f(c):
                if mn == 'bl': c.R['$ra'] = i.npc
                c.pc = a
            return f
        raise Unknown(i.text)

# ------------------------------------------------------------------ mips
class MIPS(CPU):
    sp = '$sp'; delay = True
    def __init__(c):
        CPU.__init__(c)
        for k in range(1, 32):
            if k not in (28, 29, 30, 31): c.R['$%d' % k] = 0
        for n in '$gp $sp $fp $ra'.split(): c.R[n] = 0
        for k in range(32): c.R['$f%d' % k] = 0
        c.gpval = 0; c.got = {}
    def decode(c, i, loc, b):
        c._base = b
        mn, W = i.mn, c.word
        ops = split_ops(re.sub(r'\s*<.*>$', '', i.ops.strip()))
        def get(o):
            if o in ('$zero', '$0'): return lambda c: 0
            if o not in c.R: raise Unknown(i.text)
            return lambda c: c.R[o]
        def put(o):
            if o in ('$zero', '$0'): return lambda c, v: None
            if o not in c.R: raise Unknown(i.text)
            def f(c, v): c.R[o] = v & c.mask
            return f
        if mn == 'nop': return lambda c: None
        if mn in ('addiu', 'daddiu'):
            p, g, v = put(ops[0]), get(ops[1]), num(ops[2])
            if i.rel:
                if i.rel[0][1] == '_gp_disp':
                    d = (c.gpval - c.fentry(b)) & c.mask; v = sx(d & 0xffff, 16)
                else: raise Unknown(i.text)
            return lambda c: p(c, g(c) + v)
        if mn == 'lui':
            p, v = put(ops[0]), num(ops[1])
            if i.rel:
                if i.rel[0][1] != '_gp_disp': raise Unknown(i.text)
                v = ((c.gpval - c.fentry(b) + 0x8000) & c.mask) >> 16
            v <<= 16
            return lambda c: p(c, v)
        if mn in ('addu', 'daddu', 'and', 'or', 'subu', 'dsubu', 'xor'):
            p, g, h = put(ops[0]), get(ops[1]), get(ops[2])
            op = {'addu': lambda a, b: a + b, 'daddu': lambda a, b: a + b, 'subu': lambda a, b: a - b, 'dsubu': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[mn]
            return lambda c: p(c, op(g(c), h(c)))
        if mn == 'move':
            p, g = put(ops[0]), get(ops[1]); return lambda c: p(c, g(c))
        m = re.match(r'(sw|lw|sd|ld|sdc1|ldc1|swc1|lwc1|s\.d|l\.d)$', mn)
        if m:
            mm = re.match(r'(-?(?:0x)?[0-9a-f]+)?\((\$\w+)\)$', ops[1])
            off = num(mm.group(1)) if mm.group(1) else 0
            base = get(mm.group(2))
            w = 4 if mn in ('sw', 'lw', 'swc1', 'lwc1') else 8
            al = w
            if i.rel:
                if 'CALL16' not in i.rel[0][0] and 'GOT' not in i.rel[0][0]: raise Unknown(i.text)
                a = c.target(i.rel[0][1], loc)
                off = c.gotslot(a)
            st = mn[0] == 's'
            if st:
                g = get(ops[0])
                def f(c):
                    a = (base(c) + off) & c.mask
                    if a % al: raise Fault('misaligned access to 0x%x' % a)
                    c.mem.wr(a, w, g(c))
                return f
            p = put(ops[0]); isf = ops[0].startswith('$f') and ops[0] != '$fp'
            def f(c):
                a = (base(c) + off) & c.mask
                if a % al: raise Fault('misaligned access to 0x%x' % a)
                v = c.mem.rd(a, w)
                if not isf: p(c, sx(v, 32) if w == 4 else v)
                else: c.R[ops[0]] = v
            return f
        if mn in ('jr', 'jalr'):
            g = get(ops[-1])
            def f(c):
                v = g(c)
                if mn == 'jalr': c.R['$ra'] = i.pc + 8
                c.npc = v
            return f
        if mn in ('b',):
            a = b + num(ops[0])
            def f(c): c.npc = a
            return f
        raise Unknown(i.text)
    def fentry(c, b): return b
    def gotslot(c, a):
        if a not in c.got: c.got[a] = 0x20 + 8 * len(c.got)
        return c.got[a] - 0x7ff0 if False else c.got[a]
class MIPS32(MIPS):
    word = 4

# ------------------------------------------------------------------ powerpc
class PPC(CPU):
    sp = '1'; big = True
    def __init__(c):
        CPU.__init__(c)
        for k in range(32): c.R[str(k)] = 0; c.R['f%d' % k] = 0
        c.R['lr'] = c.R['ctr'] = c.R['cr'] = 0
        c.fpscr = 0; c.toc = 0; c.got2 = 0
    def decode(c, i, loc, b):
        c._base = b
        mn, W = i.mn, c.word
        ops = split_ops(re.sub(r'\s*<.*>$', '', i.ops.strip()))
        G = lambda n: (lambda c: c.R[n])
        def P(n):
            if n not in c.R: raise Unknown(i.text)
            def f(c, v): c.R[n] = v & c.mask
            return f
        def imm(o, k):
            if not i.rel: return num(o)
            t, s, a = i.rel[0]
            s = s.replace('.TOC.', 'TOC').replace('.got2', 'GOT2')
            m = re.match(r'(TOC|GOT2)(\+0x[0-9a-f]+)?$', s)
            if m:
                add = int(m.group(2), 16) if m.group(2) else 0
                v = (c.toc if m.group(1) == 'TOC' else c.got2) + add - a
            else: v = c.target(s, loc) - a
            if 'HA' in t: return sx(((v + 0x8000) >> 16) & 0xffff, 16)
            if 'LO' in t: return sx(v & 0xffff, 16)
            raise Unknown(i.text)
        if mn == 'nop': return lambda c: None
        if mn == 'li':
            p, v = P(ops[0]), num(ops[1]); return lambda c: p(c, v)
        if mn in ('addi', 'addis', 'subi'):
            p, v = P(ops[0]), imm(ops[2], mn)
            if mn == 'addis': v <<= 16
            if mn == 'subi': v = -v
            r = ops[1]
            return lambda c: p(c, (0 if r == '0' else c.R[r]) + v)
        if mn == 'mr':
            p, g = P(ops[0]), G(ops[1]); return lambda c: p(c, g(c))
        if mn in ('mflr', 'mfcr', 'mfctr'):
            p, g = P(ops[0]), G(mn[2:]); return lambda c: p(c, g(c))
        if mn in ('mtlr', 'mtcr', 'mtctr'):
            p, g = P(mn[2:]), G(ops[0])
            if mn == 'mtcr':
                def f(c): c.R['cr'] = c.R[ops[0]] & 0xffffffff
                return f
            return lambda c: p(c, g(c))
        if mn == 'mffs':
            def f(c): c.R['f' + ops[0]] = 0xfff8000000000000 | c.fpscr
            return f
        if mn == 'mtfsf':
            if num(ops[0]) != 255: raise Unknown(i.text)
            def f(c): c.fpscr = c.R['f' + ops[1]] & 0xffffffff
            return f
        if mn == 'rlwinm':
            p, g, sh, mb, me = P(ops[0]), G(ops[1]), num(ops[2]), num(ops[3]), num(ops[4])
            if sh or mb > me: raise Unknown(i.text)
            mk = sum(1 << (31 - k) for k in range(mb, me + 1))
            return lambda c: p(c, g(c) & mk)
        if mn == 'rldicr':
            p, g, sh, me = P(ops[0]), G(ops[1]), num(ops[2]), num(ops[3])
            if sh: raise Unknown(i.text)
            mk = sum(1 << (63 - k) for k in range(0, me + 1))
            return lambda c: p(c, g(c) & mk)
        m = re.match(r'(stwu|stdu|stw|std|lwz|ld|stfd|lfd)$', mn)
        if m:
            mm = re.match(r'(-?\d+)\((\d+)\)$', ops[1])
            off, r = int(mm.group(1)), mm.group(2)
            w = 4 if mn in ('stw', 'lwz', 'stwu') else 8
            reg = ('f' if mn in ('stfd', 'lfd') else '') + ops[0]
            def ea(c): return ((0 if r == '0' else c.R[r]) + off) & c.mask
            if mn.startswith('st'):
                def f(c):
                    a = ea(c); c.mem.wr(a, w, c.R[reg])
                    if mn in ('stwu', 'stdu'): c.R[r] = a
                return f
            def f(c): c.R[reg] = c.mem.rd(ea(c), w)
            return f
        if mn in ('cmpdi', 'cmpwi'):
            if len(ops) == 3:
                if ops[0] not in ('0', 'cr0'): raise Unknown(i.text)
                ops = ops[1:]
            v = num(ops[1]); bits = 64 if mn == 'cmpdi' else 32
            def f(c):
                x = sx(c.R[ops[0]], bits)
                c.R['cr'] = (c.R['cr'] & 0x0fffffff) | ((8 if x < v else 4 if x > v else 2) << 28)
            return f
        if mn in ('bt', 'bf', 'beq', 'bne'):
            if mn in ('bt', 'bf'):
                if ops[0] not in ('2', 'eq'): raise Unknown(i.text)
            a = b + num(ops[-1].split()[0]); want = mn in ('bt', 'beq')
            def f(c):
                if bool(c.R['cr'] >> 29 & 1) == want: c.pc = a
            return f
        if mn in ('blr', 'bctr', 'bctrl'):
            def f(c):
                v = c.R['lr'] if mn == 'blr' else c.R['ctr']
                if mn == 'bctrl': c.R['lr'] = i.npc
                c.pc = v & ~3
            return f
        if mn in ('b', 'bl', 'bcl'):
            if i.rel: a = c.target(re.sub(r'\+0x8000$', '', i.rel[0][1]), loc)
            else: a = b + num(ops[-1].split()[0])
            def f(c):
                if mn != 'b': c.R['lr'] = i.npc
                c.pc = a
            return f
        raise Unknown(i.text)
class PPC32(PPC):
    word = 4
class PPC64LE(PPC):
    big = False

# ------------------------------------------------------------------ s390x
class S390(CPU):
    sp = '%r15'; big = True
    def __init__(c):
        CPU.__init__(c)
        for k in range(16): c.R['%%r%d' % k] = 0; c.R['%%f%d' % k] = 0
        c.fpc = 0; c.cc = 0
    def decode(c, i, loc, b):
        c._base = b
        mn = i.mn
        ops = split_ops(re.sub(r'\s*<.*>$', '', i.ops.strip()))
        def ea(o):
            m = re.match(r'(-?\d+)(?:\((%r\d+)(?:,(%r\d+))?\))?$', o)
            d, x, y = int(m.group(1)), m.group(2), m.group(3)
            def f(c):
                a = d
                for r in (x, y):
                    if r and r != '%r0': a += c.R[r]
                return a & c.mask
            return f
        R = lambda o: o if o in c.R else (_ for _ in ()).throw(Unknown(i.text))
        for o in ops: 
            if o.startswith('%') and o not in c.R: raise Unknown(i.text)
        if mn in ('nop', 'nopr', 'bcr') or mn == 'bc' and ops[0] == '0': return lambda c: None
        if mn == 'nill':
            v = num(ops[1])
            def f(c): c.R[ops[0]] = (c.R[ops[0]] & ~0xffff) | (c.R[ops[0]] & v & 0xffff)
            return f
        if mn in ('aghi', 'lghi', 'agfi', 'lgfi'):
            v = num(ops[1])
            def f(c): c.R[ops[0]] = ((c.R[ops[0]] if mn[0] == 'a' else 0) + v) & c.mask
            return f
        if mn == 'lgr':
            def f(c): c.R[ops[0]] = c.R[ops[1]]
            return f
        if mn == 'mvghi':
            e, v = ea(ops[0]), num(ops[1]); return lambda c: c.mem.wr(e(c), 8, v)
        if mn in ('stg', 'std'):
            e = ea(ops[1]); return lambda c: c.mem.wr(e(c), 8, c.R[ops[0]])
        if mn in ('lg', 'ld', 'ltg'):
            e = ea(ops[1])
            def f(c):
                v = c.R[ops[0]] = c.mem.rd(e(c), 8)
                if mn == 'ltg': c.cc = 0 if v == 0 else 1 if v >> 63 else 2
            return f
        if mn == 'la':
            e = ea(ops[1])
            def f(c): c.R[ops[0]] = e(c)
            return f
        if mn == 'larl':
            a = c.target(i.rel[0][1], loc) if i.rel else b + num(ops[1].split()[0])
            def f(c): c.R[ops[0]] = a
            return f
        if mn in ('stfpc', 'lfpc'):
            e = ea(ops[0])
            if mn == 'stfpc': return lambda c: c.mem.wr(e(c), 4, c.fpc)
            def f(c): c.fpc = c.mem.rd(e(c), 4)
            return f
        if mn in ('stmg', 'lmg'):
            x, y, e = int(ops[0][2:]), int(ops[1][2:]), ea(ops[2])
            if y < x: raise Unknown(i.text)
            def f(c):
                a = e(c)
                for k in range(x, y + 1):
                    if mn == 'stmg': c.mem.wr(a, 8, c.R['%%r%d' % k])
                    else: c.R['%%r%d' % k] = c.mem.rd(a, 8)
                    a += 8
            return f
        if mn in ('br', 'bser', 'basr'):
            def f(c):
                v = c.R[ops[-1]]
                if mn == 'basr': c.R[ops[0]] = i.npc
                c.pc = v
            return f
        if mn in ('jne', 'jnz', 'je', 'jz', 'j'):
            a = b + num(ops[0].split()[0])
            def f(c):
                if mn == 'j' or (c.cc != 0) == (mn in ('jne', 'jnz')): c.pc = a
            return f
        if mn == 'brasl':
            a = c.target(re.sub(r'\+0x2$', '', i.rel[0][1]), loc) if i.rel else b + num(ops[1].split()[0])
            def f(c): c.R[ops[0]] = i.npc; c.pc = a
            return f
        raise Unknown(i.text)

# ------------------------------------------------------------------ sparc64
class SPARC(CPU):
    sp = '%o6'; big = True; delay = True
    al = {'%sp': '%o6', '%fp': '%i6'}
    def __init__(c):
        CPU.__init__(c)
        for g in 'goli':
            for k in range(8): c.R['%%%s%d' % (g, k)] = 0
        c.wins = []             # windows of the callers, the outermost first: (sp, values)
    def spill(c, n=None):
        n = len(c.wins) if n is None else n
        for sp, v in c.wins[:n]:
            for k, x in enumerate(v): c.mem.wr((sp + 2047 + 8 * k) & c.mask, 8, x, check=False)
        del c.wins[:n]
    def window(c): return ['%%l%d' % k for k in range(8)] + ['%%i%d' % k for k in range(8)]
    def save(c, rd, v, rnd):
        c.wins.append((c.R['%o6'], [c.R[n] for n in c.window()]))
        for k in range(8): c.R['%%i%d' % k] = c.R['%%o%d' % k]
        for k in range(8): c.R['%%l%d' % k] = rnd(); c.R['%%o%d' % k] = rnd()
        if rd: c.R[rd] = v & c.mask
    def restore(c, rd, v):
        for k in range(8): c.R['%%o%d' % k] = c.R['%%i%d' % k]
        if c.wins: w = c.wins.pop()[1]
        else: w = [c.mem.rd((c.R['%o6'] + 2047 + 8 * k) & c.mask, 8) for k in range(16)]
        for n, x in zip(c.window(), w): c.R[n] = x
        if rd: c.R[rd] = v & c.mask
    def decode(c, i, loc, b):
        c._base = b
        mn = i.mn
        ops = split_ops(re.sub(r'\s*<.*>$', '', i.ops.strip()))
        N = lambda o: c.al.get(o, o)
        def get(o):
            o = N(o)
            if o == '%g0': return lambda c: 0
            if o in c.R: return lambda c: c.R[o]
            if o.startswith('%'): raise Unknown(i.text)
            v = num(o) & c.mask
            return lambda c: v
        def put(o):
            o = N(o)
            if o == '%g0': return lambda c, v: None
            if o not in c.R: raise Unknown(i.text)
            def f(c, v): c.R[o] = v & c.mask
            return f
        def ea(o):
            m = re.match(r'\[(%\w+)(?:([+-]\d+)|\+(%\w+))?\]$', o)
            g = get(m.group(1)); d = int(m.group(2)) if m.group(2) else 0
            h = get(m.group(3)) if m.group(3) else None
            def f(c):
                a = (g(c) + d + (h(c) if h else 0)) & c.mask
                if a % 8: raise Fault('misaligned access to 0x%x' % a)
                return a
            return f
        if mn == 'nop': return lambda c: None
        if mn in ('add', 'sub', 'and', 'or', 'xor', 'andn'):
            g, h, p = get(ops[0]), get(ops[1]), put(ops[2])
            op = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'andn': lambda a, b: a & ~b}[mn]
            return lambda c: p(c, op(g(c), h(c)))
        if mn == 'mov':
            g, p = get(ops[0]), put(ops[1]); return lambda c: p(c, g(c))
        if mn == 'rd':
            if ops[0] != '%pc': raise Unknown(i.text)
            p = put(ops[1]); return lambda c: p(c, i.pc)
        if mn == 'stx':
            g, e = get(ops[0]), ea(ops[1]); return lambda c: c.mem.wr(e(c), 8, g(c))
        if mn == 'ldx':
            e, p = ea(ops[0]), put(ops[1]); return lambda c: p(c, c.mem.rd(e(c), 8))
        if mn == 'save':
            g, h, rd = get(ops[0]), get(ops[1]), N(ops[2])
            def f(c): c.save(rd, g(c) + h(c), c.rnd)
            return f
        if mn == 'restore':
            if not ops: ops = ['%g0', '%g0', '%g0']
            g, h, rd = get(ops[0]), get(ops[1]), N(ops[2])
            def f(c): c.restore(None if rd == '%g0' else rd, g(c) + h(c))
            return f
        if mn == 'flushw':
            def f(c): c.spill()
            return f
        if mn in ('ret', 'retl', 'jmp'):
            if mn == 'jmp':
                m = re.match(r'(%\w+)(?:\+(\d+))?$', ops[0])
                g, d = get(m.group(1)), int(m.group(2) or 0)
            else: g, d = get('%i7' if mn == 'ret' else '%o7'), 8
            def f(c): c.npc = (g(c) + d) & c.mask
            return f
        if mn == 'call':
            if ops[0].startswith('%'): g = get(ops[0])
            else:
                a = c.target(i.rel[0][1], loc) if i.rel else i.pc + num(ops[0])
                g = lambda c: a
            def f(c):
                v = g(c); c.R['%o7'] = i.pc; c.npc = v
            return f
        raise Unknown(i.text)
