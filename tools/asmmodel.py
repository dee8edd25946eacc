"""spec/Fctx.tla replayed by the assembler routines of every platform, executed by the emulators of isa.py.

The program around the routines (context functions, functions run on top, callers) is played by this file: it knows the
calling convention of each platform, puts garbage wherever the convention lets a callee or a signal handler do so, and
checks what the convention promises a caller."""
import pickle, random, re, signal, struct, traceback
from vlib import *
from gmodel import *
from isa import *
import fctxmodel

class Dev(Exception):
    def __init__(self, cls, msg): Exception.__init__(self, msg); self.cls = cls; self.msg = msg

class Target:
    ptr = 8; args = (); stackargs = False; push = False; lr = None
    ret = 'regs'; retregs = None; sretreg = None; arg = 'regs'
    saved = (); ded = (); align = (16, 0); owned = (); redzone = 0; env = (); mask = {}; bias = 0; teb = None; popsret = 0
    high = True; fnreg = None; tail = False; srcset = None; conv = None; desc = False; tocreg = None; flags = (); backchain = False; note = ''; alias = False; shadow = False; tlsbits = 0; home = None

def R(fmt, a, b): return tuple(fmt % k for k in range(a, b + 1))

class x64(Target):
    cpu = X86; triple = 'x86_64-linux-gnu'; files = 'x86_64_sysv_elf_gas.S'
    args = ('rdi', 'rsi', 'rdx', 'rcx'); push = True; retregs = ('rax', 'rdx')
    saved = ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15'); align = (16, 8); redzone = 128; env = ('mxcsr', 'cw')
class x64tsx(x64): flags = ('-DBOOST_USE_TSX',); env = ()
class x64ssp(x64): flags = ('-DBOOST_CONTEXT_TLS_STACK_PROTECTOR',); env = ('mxcsr', 'cw', 'guard'); guard = 0x28
class x64cet(x64): flags = ('-fcf-protection=full', '-DBOOST_CONTEXT_SHADOW_STACK=0')
class x64shstk(x64): flags = ('-fcf-protection=full', '-DSHADOW_STACK_SYSCALL=1'); shadow = True
class x64shstkssp(x64ssp): flags = x64shstk.flags + x64ssp.flags; shadow = True
class x64macho(x64): triple = 'x86_64-apple-darwin'; files = 'x86_64_sysv_macho_gas.S'
class x32(x64):
    triple = 'x86_64-linux-gnux32'; ptr = 4; high = False; ret = arg = 'packed'; retregs = ('rax',)
class x64win(x64):
    triple = 'x86_64-pc-windows-gnu'; files = 'x86_64_ms_pe_clang_gas.S'
    args = ('rcx', 'rdx', 'r8', 'r9'); ret = 'sret'; sretreg = 'rax'; arg = 'ref'
    saved = ('rbx', 'rbp', 'rdi', 'rsi', 'r12', 'r13', 'r14', 'r15') + R('xmm%d', 6, 15)
    owned = ((0, 32),); redzone = 0; alias = True
    teb = dict(base=0x8, limit=0x10, dealloc=0x1478, fiber=0x20)
class x64wingas(x64win): files = 'x86_64_ms_pe_gas.asm'
class x64winmasm(x64win): files = 'x86_64_ms_pe_masm.asm'; conv = 'masm'
class i386(Target):
    cpu = I386; triple = 'i386-linux-gnu'; files = 'i386_sysv_elf_gas.S'; ptr = 4; high = False
    stackargs = True; push = True; ret = 'sret'; sretreg = 'rax'; arg = 'stack'; popsret = 4
    saved = ('rbx', 'rbp', 'rdi', 'rsi'); align = (16, 12); env = ('mxcsr', 'cw')
class i386tsx(i386): flags = ('-DBOOST_USE_TSX',); env = ()
class i386ssp(i386): flags = ('-DBOOST_CONTEXT_TLS_STACK_PROTECTOR',); env = ('mxcsr', 'cw', 'guard'); guard = 0x14
class i386macho(i386): triple = 'i386-apple-darwin'; files = 'i386_sysv_macho_gas.S'; ret = 'regs'; retregs = ('rax', 'rdx'); popsret = 0
class i386win(i386):
    triple = 'i386-pc-windows-gnu'; files = 'i386_ms_pe_clang_gas.S'; ret = 'regs'; retregs = ('rax', 'rdx'); popsret = 0; align = (4, 0)
    teb = dict(exc=0x0, base=0x4, limit=0x8, dealloc=0xe0c, fiber=0x10)
class i386wingas(i386win): files = 'i386_ms_pe_gas.asm'
class i386winmasm(i386win): files = 'i386_ms_pe_masm.asm'; conv = 'masm'
class arm64(Target):
    cpu = ARM64; triple = 'aarch64-linux-gnu'; files = 'arm64_aapcs_elf_gas.S'
    args = R('x%d', 0, 7); lr = 'x30'; retregs = ('x0', 'x1')
    saved = R('x%d', 19, 29) + R('d%d', 8, 15); ded = ('x18',)
class arm64bti(arm64): flags = ('-march=armv8.5-a', '-mbranch-protection=standard')
class arm64macho(arm64): triple = 'arm64-apple-darwin'; files = 'arm64_aapcs_macho_gas.S'
class arm64win(arm64):
    triple = 'aarch64-windows-msvc'; files = 'arm64_aapcs_pe_armclang.S'
    teb = dict(base=0x8, limit=0x10, dealloc=0x1478, fiber=0x20)
class arm64winasm(arm64win): files = 'arm64_aapcs_pe_armasm.asm'; conv = 'armasm'
class arm(Target):
    cpu = ARM; triple = 'armv7-linux-gnueabihf'; files = 'arm_aapcs_elf_gas.S'; ptr = 4; high = False
    args = R('r%d', 0, 3); lr = 'lr'; ret = 'sret'; arg = 'regs'
    saved = R('r%d', 4, 11) + R('d%d', 8, 15); align = (8, 0)
class armsoft(arm): triple = 'armv7-linux-gnueabi'; flags = ('-mfloat-abi=soft',); saved = R('r%d', 4, 11)
class armmacho(arm):
    triple = 'armv7-apple-darwin'; files = 'arm_aapcs_macho_gas.S'; saved = R('r%d', 4, 8) + ('r10', 'r11') + R('d%d', 8, 15); align = (4, 0)
    teb = dict(sjlj=0x48); tls = 'c13,c0,#3'; tlsbits = 3
class armwin(arm):
    triple = 'armv7-linux-gnueabihf'; files = 'arm_aapcs_pe_armasm.asm'; conv = 'armasm'; tls = 'c13,c0,#2'
    teb = dict(base=0x4, limit=0x8, dealloc=0xe0c)
class riscv(Target):
    cpu = RISCV; triple = 'riscv64-linux-gnu'; files = 'riscv64_sysv_elf_gas.S'; flags = ('-march=rv64gc', '-mabi=lp64d')
    args = R('a%d', 0, 7); lr = 'ra'; retregs = ('a0', 'a1'); saved = R('s%d', 0, 11) + R('fs%d', 0, 11); ded = ('gp', 'tp')
class loong(Target):
    cpu = LOONG; triple = 'loongarch64-linux-gnu'; files = 'loongarch64_sysv_elf_gas.S'
    args = R('$a%d', 0, 7); lr = '$ra'; retregs = ('$a0', '$a1'); saved = R('$s%d', 0, 8) + ('$fp',) + R('$fs%d', 0, 7); ded = ('$tp', '$r21')
class mips32(Target):
    cpu = MIPS32; triple = 'mips-linux-gnu'; files = 'mips32_o32_elf_gas.S'; ptr = 4; high = False; big = True
    args = ('$4', '$5', '$6', '$7'); lr = '$ra'; ret = 'sret'; sretreg = '$2'; arg = 'regs'; fnreg = '$25'
    saved = R('$%d', 16, 23) + ('$fp',) + tuple('$f%d' % k for k in range(20, 31, 2)); align = (8, 0); owned = ((0, 16),)
class mips32el(mips32): triple = 'mipsel-linux-gnu'; big = False
class mips32soft(mips32): flags = ('-msoft-float',); saved = R('$%d', 16, 23) + ('$fp',)
class mips64(Target):
    cpu = MIPS; triple = 'mips64-linux-gnuabi64'; files = 'mips64_n64_elf_gas.S'; big = True
    args = R('$%d', 4, 11); lr = '$ra'; retregs = ('$2', '$3'); fnreg = '$25'
    saved = R('$%d', 16, 23) + ('$fp',) + R('$f%d', 24, 31); ded = ('$gp',)
class mips64el(mips64): triple = 'mips64el-linux-gnuabi64'; big = False
class ppc32(Target):
    cpu = PPC32; triple = 'powerpc-linux-gnu'; files = 'ppc32_sysv_elf_gas.S'; ptr = 4; high = False
    args = R('%d', 3, 10); lr = 'lr'; ret = 'sret'; arg = 'ref'; tail = True
    saved = R('%d', 14, 31) + R('f%d', 14, 31) + ('cr',); mask = dict(cr=0x00fff000); ded = ('2', '13'); owned = ((4, 4),); env = ('fpscr',); backchain = True
class ppc32bsd(ppc32): triple = 'powerpc-unknown-freebsd'; ret = 'regs'; retregs = ('3', '4')
class ppc64(Target):
    cpu = PPC; triple = 'powerpc64-linux-gnu'; files = 'ppc64_sysv_elf_gas.S'
    args = R('%d', 3, 10); lr = 'lr'; ret = 'sret'; arg = 'regs'; desc = True; tocreg = '2'
    saved = R('%d', 14, 31) + R('f%d', 14, 31) + ('cr',); mask = dict(cr=0x00fff000); ded = ('13',); owned = ((8, 16), (48, 64)); home = 48; redzone = 288; backchain = True
class ppc64le(ppc64):
    cpu = PPC64LE; triple = 'powerpc64le-linux-gnu'; ret = 'regs'; retregs = ('3', '4'); desc = False; fnreg = '12'; tocreg = None
    owned = ((8, 16),); redzone = 512
class ppc32aix(ppc32):
    files = 'ppc32_sysv_xcoff_gas.S'; conv = 'xcoff'; arg = 'regs'; tail = False; desc = True; tocreg = '2'
    ded = (); saved = R('%d', 13, 31) + R('f%d', 14, 31) + ('cr',); owned = ((4, 8), (24, 32)); home = 24; redzone = 220
class ppc64aix(ppc64):
    files = 'ppc64_sysv_xcoff_gas.S'; conv = 'xcoff'
class ppc32macho(ppc32):
    files = 'ppc32_sysv_macho_gas.S'; conv = 'ppcmacho'; arg = 'regs'; ded = ()
    saved = R('%d', 13, 31) + R('f%d', 14, 31) + ('cr',); owned = ((4, 8), (24, 32)); home = 24; redzone = 224
class s390x(Target):
    cpu = S390; triple = 's390x-linux-gnu'; files = 's390x_sysv_elf_gas.S'
    args = R('%%r%d', 2, 6); lr = '%r14'; ret = 'sret'; arg = 'ref'
    saved = R('%%r%d', 6, 13) + R('%%f%d', 8, 15); align = (8, 0); owned = ((0, 160),); env = ('fpc',)
class sparc64(Target):
    cpu = SPARC; triple = 'sparc64-linux-gnu'; files = 'sparc64_sysv_elf_gas.S'
    args = R('%%o%d', 0, 5); lr = '%o7'; retregs = ('%o0', '%o1'); bias = 2047
    saved = R('%%l%d', 0, 7) + R('%%i%d', 0, 7); ded = ('%g6', '%g7'); owned = ((0, 176),)

TARGETS = [x64, x64tsx, x64ssp, x64cet, x64shstk, x64shstkssp, x64macho, x32, x64win, x64wingas, x64winmasm, i386, i386tsx, i386ssp, i386macho, i386win, i386wingas, i386winmasm,
           arm64, arm64bti, arm64macho, arm64win, arm64winasm, arm, armsoft, armmacho, armwin, riscv, loong, mips32, mips32el, mips32soft, mips64, mips64el,
           ppc32, ppc32bsd, ppc32aix, ppc32macho, ppc64, ppc64le, ppc64aix, s390x, sparc64]

# ------------------------------------------------------------------ assembling
def convert(kind, text):
    """the syntaxes of the Microsoft assemblers, as far as the files use them, to the one of clang"""
    out = []
    for l in text.split('\n'):
        if kind == 'armasm':
            l = re.sub(r';.*', '', l).rstrip()
            if re.match(r'\s*(AREA|EXPORT|IMPORT|ALIGN|THUMB|ENDP|END|ENTRY)\b', l, re.I): 
                out.append(''); continue
            m = re.match(r'(\w+)\s+proc\b', l, re.I)
            if m: out.append('.globl %s\n%s:' % (m.group(1), m.group(1))); continue
            m = re.match(r'(\w+)\s*$', l)
            if m: out.append(m.group(1) + ':'); continue
            l = re.sub(r'\bfp\b', 'x29', re.sub(r'\blr\b', 'x30', l)) if kind == 'arm64asm' else l
            l = re.sub(r'\b(a)([1-4])\b', lambda m: 'r%d' % (int(m.group(2)) - 1), l)
            l = re.sub(r'\bv([1-8])\b', lambda m: 'r%d' % (int(m.group(1)) + 3), l)
            l = l.replace('p15, #0', 'p15, 0')
            out.append(l)
        elif kind == 'xcoff':
            l = re.sub(r'#.*', '', l).rstrip()
            if re.match(r'\s*\.(file|toc|globl|csect|long|llong)\b', l) or re.match(r'\w+:', l): 
                if l.startswith(('use_entry_arg', 'return_to_ctx')): out.append(l)
                continue
            m = re.match(r'\.(make|jump|ontop)_fcontext:', l)
            if m: l = '.globl %s_fcontext\n%s_fcontext:' % (m.group(1), m.group(1))
            out.append(l.replace('._exit', '_exit'))
        elif kind == 'ppcmacho':
            l = re.sub(r';.*', '', l).rstrip()
            if l.strip() in ('.const_data',) or '.private_extern' in l: continue
            l = re.sub(r'\b[rf](\d+)\b', r'\1', l)
            l = re.sub(r'ha16\((.*?)\)', r'(\1)@ha', re.sub(r'lo16\((.*?)\)', r'\1', l))
            l = re.sub(r'\b__exit', '_exit', l)
            l = re.sub(r'\b_(make|jump|ontop)_fcontext\b', r'\1_fcontext', l)
            l = l.replace('_ontop_fcontext_tail', 'ontop_fcontext_tail')
            out.append(l)
    t = '\n'.join(out) + '\n'
    if kind in ('xcoff', 'ppcmacho'): t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    return '.text\n' + t
def masm(text):
    """what llvm-ml does not know"""
    text = re.sub(r'(?im)^\s*assume .*', '', text)
    labels = set(re.findall(r'(?m)^(\w+):', text))
    text = re.sub(r'(?m)^(\s*mov\s+\w+,\s*)(\w+)', lambda m: m.group(1) + ('offset ' if m.group(2) in labels else '') + m.group(2), text)
    return re.sub(r'(?m)^_exit PROTO.*', 'EXTERN _exit:PROC', text)

def assemble(t, d):
    objs = {}
    for n in ('make', 'jump', 'ontop'):
        src = '%s/src/asm/%s_%s' % (REPO, n, t.files)
        o = '%s/%s.%s.o' % (d, t.__name__, n)
        if t.conv == 'masm':
            s = '%s/%s.%s.asm' % (d, t.__name__, n)
            open(s, 'w').write(masm(open(src, errors='replace').read()))
            r = sh(['llvm-ml-18', '-m64' if t.ptr == 8 else '-m32', '/DBOOST_CONTEXT_EXPORT=', '/c', '/Fo', o, s])
            if r.returncode: raise BuildFailed(src, r.stdout)
            objs[n] = o
            continue
        if t.conv:
            s = '%s/%s.%s.s' % (d, t.__name__, n)
            text = convert(t.conv, open(src, errors='replace').read())
            open(s, 'w').write(text)
            src = s
        x = ['-x', 'assembler-with-cpp'] if not src.endswith('.S') and not t.conv else []
        r = sh(['clang', '-target', t.triple, *t.flags, '-I' + REPO + '/include', *x, '-c', src, '-o', o])
        if r.returncode: raise BuildFailed(src, r.stdout)
        objs[n] = o
    return objs

# ------------------------------------------------------------------ the program around the routines
MAGIC, EXIT, TAIL, ONTOP, RETN = 0, 0x10, 0x20, 0x30, 0x1000
class Ctx: pass
class Machine:
    SIZE = 0x4000
    def __init__(m, t, objs, nc):
        m.t = t; m.nc = nc
        c = m.c = t.cpu.__new__(t.cpu)
        if hasattr(t, 'big'): c.big = t.big
        t.cpu.__init__(c)
        m.hi = t.high
        m.code = 0x5aa512340000 if t.high else 0x41230000
        m.magic = 0x6bb612340000 if t.high else 0x51230000
        m.st0 = 0x7cc712340000 if t.high else 0x21230000
        m.data = 0x5dd812340000 if t.high else 0x31230000
        c.sym = {'_exit': m.magic + EXIT, 'exit': m.magic + EXIT, 'ontop_fcontext_tail': m.magic + TAIL}
        if isinstance(c, MIPS): c.gpval = m.data + 0x8000
        if isinstance(c, PPC): c.toc = m.data + 0x8000; c.got2 = m.data + 0xa000
        c.gotv = m.data + 0x8000
        c.rnd = lambda: m.rng.getrandbits(64) & c.mask
        m.rng = random.Random(0)
        c.load(objs, m.code)
        M = c.mem
        m.stacks = {}
        for x in range(1, nc + 1):
            r = M.add(m.st0 + x * 0x100000, m.SIZE, 'stack of context %d' % x)
            m.stacks[x] = r
        m.dataseg = M.add(m.data, 0x10000, 'data')
        m.tebseg = M.add(m.data + 0x100000, 0x2000, 'thread block') if t.teb or 'guard' in t.env else None
        m.teb = m.data + 0x100000
        if isinstance(c, X86): c.seg = dict(fs=m.teb, gs=m.teb)
        if isinstance(c, ARM) and t.teb: c.cp = m.cp
        if isinstance(c, MIPS):
            for a, off in c.got.items(): M.wr(c.gpval + off, c.word, a)
        for a in c.lits: M.add(a, c.word, 'literal'); M.wr(a, c.word, c.sym['_exit'])
        c.tick = m.tick
        m.shst = {x: m.data + 0x1000000 + x * 0x10000 for x in range(1, nc + 1)}
        if t.shadow: c.ssname = lambda a: any(b <= a < b + 0x1000 for b in m.shst.values())
        m.garbage = bytes(random.Random(5).getrandbits(8) for _ in range(8192))
        m.all = sorted(c.R)
    def cp(m, key):
        if m.t.tls not in key: raise Unknown('coprocessor ' + key)
        return m.teb + (m.rng.getrandbits(2) & m.t.tlsbits)
    # -- garbage below the stack pointer, as a signal handler leaves it
    def below(m, n):
        c, t = m.c, m.t
        if t.shadow:
            for k in (8, 16, 24):
                if c.ssname(c.ssp - k): c.ss[c.ssp - k] = m.rng.getrandbits(64)
        a = c.R[c.sp] + t.bias - t.redzone
        for lo, hi, mem, _ in m.stacks.values():
            if lo <= a <= hi:
                b = max(lo, a - n)
                k = m.rng.randrange(0, 8192 - n) if n < 8192 else 0
                mem[b - lo:a - lo] = m.garbage[k:k + a - b]
                return
    def tick(m, c):
        if m.signals:
            m.below(160)
            if m.t is sparc64 and m.rng.random() < .15:
                c.spill()
                a = c.R['%o6'] + 2047
                for lo, hi, mem, _ in m.stacks.values():
                    if lo <= a and a + 128 <= hi:
                        for k, n in enumerate(c.window()): c.mem.wr(a + 8 * k, 8, c.R[n], check=False)
    def clobber(m, lo, n):
        for a in range(lo, lo + n): m.c.mem.wr(a, 1, m.rng.getrandbits(8), check=False)
    def w(m, a, v): m.c.mem.wr(a, m.t.ptr, v, check=False)
    def r(m, a): return m.c.mem.rd(a, m.t.ptr)
    # -- environment
    def getenv(m):
        c = m.c; out = []
        for e in m.t.env:
            if e == 'mxcsr': out.append(c.mxcsr & 0xffc0)
            elif e == 'cw': out.append(c.cw & 0x0f3f)
            elif e == 'fpscr': out.append(c.fpscr & 0xff)
            elif e == 'fpc': out.append(c.fpc & 0xf0000077)
            elif e == 'guard': out.append(m.r(m.teb + m.t.guard))
        return out
    def setenv(m, v):
        c = m.c
        for e, x in zip(m.t.env, v):
            if e == 'mxcsr': c.mxcsr = x
            elif e == 'cw': c.cw = x
            elif e == 'fpscr': c.fpscr = x
            elif e == 'fpc': c.fpc = x
            elif e == 'guard': m.w(m.teb + m.t.guard, x)
    def randenv(m):
        g = m.rng.getrandbits; out = []
        for e in m.t.env:
            out.append({'mxcsr': lambda: g(16) & 0xffc0, 'cw': lambda: g(12) & 0x0f3f, 'fpscr': lambda: g(8), 'fpc': lambda: g(32) & 0xf0000077,
                        'guard': lambda: g(8 * m.t.ptr)}[e]())
        return out
    # -- thread block
    def tebget(m): return {k: m.r(m.teb + o) for k, o in m.t.teb.items()}
    def tebset(m, v):
        for k, x in v.items(): m.w(m.teb + m.t.teb[k], x)
    def tebnew(m, x):
        """values the program has there now"""
        g = m.rng.getrandbits
        v = {k: g(8 * m.t.ptr) for k in m.t.teb}
        if 'exc' in v:
            # a chain of handlers on the own stack
            s = m.ctx[x].sp
            n0, n1, n2 = s + 0x10, s + 0x20, s + 0x30
            m.w(n2, 0xffffffff); m.w(n2 + 4, m.handler); m.w(n1, n2); m.w(n1 + 4, g(32)); m.w(n0, n1); m.w(n0 + 4, g(32))
            v['exc'] = (n0, n1, n2)[g(8) % 3]
        m.tebset(v); return v
    def tebrest(m):
        b = bytearray(m.tebseg[2])
        for o in list(m.t.teb.values() if m.t.teb else ()) + ([m.t.guard] if 'guard' in m.t.env else []): b[o:o + m.t.ptr] = bytes(m.t.ptr)
        return bytes(b)
    # -- registers
    def scramble(m):
        c, t = m.c, m.t
        for n in m.all:
            if n in t.ded or n == c.sp: continue
            if t is sparc64 and n in ('%i6', '%i7'): continue
            bits = 128 if n.startswith('xmm') else 64 if n[0] in 'fd' or n.startswith(('$f', '%f')) and n != '$fp' else 8 * c.word
            if isinstance(c, I386): bits = 32 if not n.startswith('xmm') else 128
            v = m.rng.getrandbits(bits)
            if isinstance(c, MIPS) and c.word == 4 and bits == 64 and not n.startswith('$f'): v &= c.mask
            if n == '$fp' or n == 'fp': v &= c.mask
            c.R[n] = v
        if 'cr' in c.R: c.R['cr'] &= 0xffffffff
        if isinstance(c, X86): c.zf = m.rng.getrandbits(1)
        if t.tocreg: c.R[t.tocreg] = c.toc
    def savedvals(m): return {n: m.c.R[n] & m.t.mask.get(n, -1) for n in m.t.saved}
    def checksaved(m, want, where):
        for n, v in want.items():
            if m.c.R[n] & m.t.mask.get(n, -1) != v:
                raise Dev('fp' if n.lstrip('$%')[0] in 'fdx' and n not in ('$fp',) and not re.match(r'x\d|xr', n) else 'registers',
                          '%s: register %s is 0x%x instead of 0x%x' % (where, n, m.c.R[n], v))
    def words(m, sret, rest): return ([sret] if sret is not None else []) + rest
    def call(m, fn, words, ret, sp):
        """arguments and return address in place; the stack pointer of the caller is sp"""
        c, t = m.c, m.t
        m.scramble()
        sv = m.savedvals()
        c.R[c.sp] = sp
        if t.backchain: m.w(sp, m.ctx[m.cur].sp if m.cur else sp + 0x100)
        for o, n in t.owned: m.clobber(sp + t.bias + o, n)
        if t.stackargs:
            for k, v in enumerate(words): m.w(sp + t.ptr * k, v)
        else:
            for n, v in zip(t.args, words): c.R[n] = v
        if t.push:
            c.R[c.sp] = sp - c.word; c.mem.wr(sp - c.word, c.word, ret, check=False); m.sspush(ret)
        else: c.R[t.lr] = ret - 8 if t is sparc64 else ret
        if t.fnreg: c.R[t.fnreg] = fn
        c.pc = fn
        return sv if t is not sparc64 else m.savedvals()
    # -- shadow stacks
    def sspush(m, v):
        if m.t.shadow: m.c.sspush(v)
    def sscheck(m, x, want, where):
        c = m.c
        if m.t.shadow and c.ssp != want: raise Dev('registers', '%s: the shadow stack pointer is 0x%x instead of 0x%x' % (where, c.ssp, want))
    def ownlen(m): return max([o + n for o, n in m.t.owned] + [64 if m.t.stackargs else 0])
    def callsp(m, x):
        """stack pointer for a call from the running function of x"""
        c, t = m.c, m.t
        n = m.ownlen() + 32 + 16 * m.rng.randrange(0, 5)
        sp = m.ctx[x].sp - n
        a = max(t.align[0], 4)
        sp -= sp % 16 if a == 16 else sp % a
        if t.bias: sp = ((m.ctx[x].sp + t.bias - n) & ~15) - t.bias
        return sp
    def own(m, x, sp):
        lo = m.stacks[x][0]; b = m.t.bias
        return [(lo, sp + b)] + [(sp + b + o, sp + b + o + n) for o, n in m.t.owned] + ([(sp, sp + 4 * m.t.ptr)] if m.t.stackargs else [])
    def run(m):
        c = m.c
        c.trace = []
        try: c.run(lambda pc: m.magic <= pc < m.magic + 0x100000)
        except Fault as e: raise Dev('crash', str(e))
        finally: c.mem.allow = None
        return c.pc - m.magic
    def taddr(m, a, where):
        lo = None
        for s in m.stacks.values():
            if s[0] <= a and a + 2 * m.t.ptr <= s[1]: return
        raise Dev('event', '%s: the structure is said to be at 0x%x' % (where, a))
    def transfer_arg(m, skip, where):
        """the transfer_t a function is entered with; skip: hidden arguments before it"""
        c, t = m.c, m.t
        if t.arg == 'packed':
            v = c.R[t.args[skip]]; return v & 0xffffffff, v >> 32
        if t.arg == 'regs': return c.R[t.args[skip]], c.R[t.args[skip + 1]]
        if t.arg == 'ref':
            a = c.R[t.args[skip]]; m.taddr(a, where)
            v = m.r(a), m.r(a + t.ptr)
            m.refarg = a
            return v
        a = c.R[c.sp] + c.word + t.ptr * skip
        return m.r(a), m.r(a + t.ptr)
    # -- a function has been entered
    def enter(m, x, kind, skip, where):
        c, t = m.c, m.t
        E = c.R[c.sp]
        lo, hi = m.stacks[x][0], m.ctx[x].top
        if not lo <= E + t.bias <= hi: raise Dev('bounds', '%s: the stack pointer 0x%x is not in the stack of the context' % (where, E))
        a, r = t.align
        if (E + t.bias) % a != r % a: raise Dev('alignment', '%s: the stack pointer is 0x%x' % (where, E))
        f = Ctx()
        f.kind = kind; f.entry = E; f.sret = None
        if t.push: f.ret = c.mem.rd(E, c.word); base = E + c.word
        else: f.ret = c.R[t.lr] + (8 if t is sparc64 else 0); base = E
        f.base = base
        if t.shadow:
            if not m.shst[x] <= c.ssp < m.shst[x] + 0x1000: raise Dev('bounds', '%s: the shadow stack pointer 0x%x is not in the shadow stack of the context' % (where, c.ssp))
            if c.ssrd(c.ssp) != f.ret: raise Dev('registers', '%s: the shadow stack has the return address 0x%x, the stack 0x%x' % (where, c.ssrd(c.ssp), f.ret))
            f.ssp = c.ssp
        nargs = skip + (2 if t.arg == 'stack' else 0)
        own = list(t.owned) + ([(0, t.ptr * nargs)] if t.stackargs else [])
        # (the words of the arguments the function has)
        if t.home: own = [o for o in own if o[0] != t.home] + [(t.home, t.ptr * (skip + 2))]
        f.own = own
        for o, n in own:
            if base + t.bias + o + n > hi: raise Dev('bounds', '%s: the area a caller provides reaches 0x%x bytes above the stack' % (where, base + t.bias + o + n - hi))
        if t.fnreg and c.R[t.fnreg] != c.pc: raise Dev('registers', '%s: register %s has not the address of the function' % (where, t.fnreg))
        if skip:
            f.sret = m.r(E + c.word) if t.stackargs else c.R[t.args[0]]
            m.taddr(f.sret, where)
            # the result is built before the argument is looked at
            if t.arg != 'ref' or not t.alias:
                m.w(f.sret, m.rng.getrandbits(8 * t.ptr)); m.w(f.sret + t.ptr, m.rng.getrandbits(8 * t.ptr))
        m.refarg = None
        v = m.transfer_arg(skip, where)
        f.saved = m.savedvals()
        if t.tocreg and c.R[t.tocreg] != m.tocof(c.pc): raise Dev('registers', '%s: register %s is not the one of the descriptor of the function' % (where, t.tocreg))
        if kind == 'fn':
            if t.backchain and m.r(E): raise Dev('registers', '%s: the chain of frames does not end at the context function' % where)
            if t is sparc64 and c.R['%i6']: raise Dev('registers', '%s: the chain of frames does not end at the context function' % where)
        # the function uses what is its own
        if m.refarg is not None: m.clobber(m.refarg, 2 * t.ptr)
        for o, n in own:
            if t is not sparc64: m.clobber(base + o, n)
        if t is sparc64:
            c.save('%o6', E - 176 - 16 * m.rng.randrange(0, 8), c.rnd)
            m.ctx[x].sp = c.R['%o6']
        else: m.ctx[x].sp = (E - 64 - 16 * m.rng.randrange(0, 8)) & ~15
        c.R[c.sp] = m.ctx[x].sp
        m.below(2048)
        m.ctx[x].fr.append(f)
        return v
    def deliver(m, frm, val, d, where):
        h, v = val
        if v != m.dval[d]: raise Dev('data', '%s: data 0x%x instead of 0x%x' % (where, v, m.dval[d]))
        return h
    def common(m, cur, where):
        """what holds whenever control has arrived in the program"""
        c, t = m.c, m.t
        for n in t.ded:
            if c.R[n] != m.dedv[n]: raise Dev('registers', '%s: register %s has changed' % (where, n))
        if m.tebseg and m.tebrest() != m.restteb: raise Dev('registers', '%s: a field of the thread block has changed' % where)
    def transfer(m, cmd, x, d, step):
        c, t = m.c, m.t
        cur = m.cur
        X, C = m.ctx[x], m.ctx[cur]
        sp = m.callsp(cur)
        # the structure for the result is in the frame of the caller
        sret = None
        if t.ret == 'sret':
            sret = C.sp - 8 * ((2 * t.ptr + 7) // 8)
            while sret % t.ptr: sret -= 1
            sp = min(sp, sret - m.ownlen() - 16); sp -= sp % 16
        J = Ctx()
        J.id = m.nret = m.nret + 1
        J.sp = sp; J.sret = sret
        J.after = sp + (t.popsret if sret is not None else 0)
        if t.teb: J.teb = m.tebnew(cur)
        J.env = m.getenv(); J.ssp = c.ssp if t.shadow else 0
        words = m.words(sret, [X.handle, m.dval[d]])
        ontop = cmd == 'Ontop'
        m.fn_on = m.magic + ONTOP
        if ontop: words.append(m.desc(m.fn_on))
        ret = m.magic + RETN + 16 * (J.id % 0x8000)
        J.ret = ret
        J.saved = m.call(c.labels['ontop' if ontop else 'jump'], words, ret, sp)
        m.jumpsaved = J
        C.jump = J
        allow = m.own(cur, sp)
        if sret is not None: allow.append((sret, sret + 2 * t.ptr))
        if X.jump:
            allow += m.own(x, X.jump.sp)
            if X.jump.sret is not None: allow.append((X.jump.sret, X.jump.sret + 2 * t.ptr))
        else: allow.append((m.stacks[x][0], X.top))
        if m.tebseg: allow.append((m.teb, m.teb + 0x2000))
        c.mem.allow = allow
        at = m.run()
        m.cur = x
        where = '%s from %d to %d' % (cmd, cur, x)
        m.common(x, where)
        if X.jump is None:
            want = X.fn
            if at != want - m.magic: raise Dev('event', '%s: control arrived at %s instead of the context function' % (where, m.name(at)))
            v = m.enter(x, 'fn', 0, where)
            C.handle = m.deliver(cur, v, d, where)
            if t.teb:
                g = m.tebget()
                w = dict(base=X.top, limit=X.lo, dealloc=X.lo, fiber=0, sjlj=0)
                for k in g:
                    if k == 'exc':
                        a = g[k]
                        if not (X.lo <= a and a + 8 <= X.top): raise Dev('registers', '%s: the exception chain starts at 0x%x' % (where, a))
                        if a < X.fr[-1].entry: raise Dev('registers', '%s: the exception handler is below the stack pointer' % where)
                        if m.r(a) != 0xffffffff or m.r(a + 4) != m.handler: raise Dev('registers', '%s: the exception chain is (0x%x, 0x%x)' % (where, m.r(a), m.r(a + 4)))
                    elif g[k] != w[k]: raise Dev('registers', '%s: field "%s" of the thread block is 0x%x instead of 0x%x' % (where, k, g[k], w[k]))
            m.checkenv(x, X.env0, where)
        elif ontop:
            under = X.sp
            if t.tail:
                if at != TAIL: raise Dev('event', '%s: control arrived at %s' % (where, m.name(at)))
                k = 0 if t.ret == 'regs' else 1
                if c.R[t.args[k + 2]] != m.fn_on: raise Dev('event', '%s: the function on top is 0x%x' % (where, c.R[t.args[k + 2]]))
                v = (c.R[t.args[k + 3]], c.R[t.args[k + 1]])
                f = Ctx(); f.kind = 'ontop'; f.entry = f.base = c.R[c.sp]; f.own = list(t.owned)
                if f.entry % t.align[0]: raise Dev('alignment', '%s: the stack pointer is 0x%x' % (where, f.entry))
                f.sret = c.R[t.args[0]] if k else None
                f.ret = c.R['lr']; f.saved = m.savedvals()
                if k: m.taddr(f.sret, where); m.clobber(f.sret, 2 * t.ptr)
                for o, n in f.own: m.clobber(f.base + o, n)
                X.sp = (f.entry - 64 - 16 * m.rng.randrange(0, 8)) & ~15
                c.R[c.sp] = X.sp; m.below(2048); X.fr.append(f)
            else:
                if at != ONTOP: raise Dev('event', '%s: control arrived at %s instead of the function on top' % (where, m.name(at)))
                v = m.enter(x, 'ontop', 1 if t.ret == 'sret' else 0, where)
            C.handle = m.deliver(cur, v, d, where)
            m.checkteb(X, where); m.checkenv(x, X.jump.env, where)
            X.fr[-1].jump = X.jump; X.fr[-1].under = under
            X.jump = None
        else:
            v = m.returned(x, at, where)
            C.handle = m.deliver(cur, v, d, where)
    def checkenv(m, x, want, where):
        if m.getenv() != want: raise Dev('guard' if 'guard' in m.t.env and m.getenv()[:-1] == want[:-1] else 'fp',
            '%s: environment %s instead of %s' % (where, [hex(v) for v in m.getenv()], [hex(v) for v in want]))
    def checkteb(m, X, where):
        if not m.t.teb: return
        g = m.tebget()
        for k in g:
            if g[k] != X.jump.teb[k]: raise Dev('registers', '%s: field "%s" of the thread block is 0x%x instead of 0x%x' % (where, k, g[k], X.jump.teb[k]))
    def returned(m, x, at, where):
        c, t = m.c, m.t
        X = m.ctx[x]; J = X.jump
        if at != J.ret - m.magic: raise Dev('event', '%s: control arrived at %s instead of the suspended call' % (where, m.name(at)))
        if c.R[c.sp] != J.after: raise Dev('registers', '%s: the stack pointer is 0x%x instead of 0x%x' % (where, c.R[c.sp], J.after))
        m.checksaved(J.saved, where)
        m.sscheck(x, J.ssp, where)
        if t.sretreg and t.ret == 'sret' and c.R[t.sretreg] != J.sret: raise Dev('registers', '%s: %s is 0x%x, not the address of the result 0x%x' % (where, t.sretreg, c.R[t.sretreg], J.sret))
        if t.tocreg and c.R[t.tocreg] != c.toc: raise Dev('registers', '%s: register %s' % (where, t.tocreg))
        m.checkteb(X, where); m.checkenv(x, J.env, where)
        if t.ret == 'regs': v = c.R[t.retregs[0]], c.R[t.retregs[1]]
        elif t.ret == 'packed': v = c.R[t.retregs[0]] & 0xffffffff, c.R[t.retregs[0]] >> 32
        else: v = m.r(J.sret), m.r(J.sret + t.ptr)
        X.jump = None
        c.R[c.sp] = X.sp
        m.below(2048)
        return v
    def name(m, at):
        if at == EXIT: return '_exit()'
        if at == ONTOP: return 'the function on top'
        if at >= RETN: return 'the return address of call %d' % ((at - RETN) // 16)
        return 'the function of context %d' % ((at - 0x100) // 16)
    def tocof(m, fn): return m.c.toc + 0x10 * ((fn >> 4) & 0xff)
    def desc(m, fn):
        """function pointer"""
        if not m.t.desc: return fn
        a = m.descs.get(fn)
        if a is None:
            a = m.descs[fn] = m.data + 0x100 + 24 * len(m.descs); p = m.t.ptr
            m.w(a, fn); m.w(a + p, m.tocof(fn)); m.w(a + 2 * p, 0)
        return a
    def fnreturn(m, x, val):
        """the running function of x returns; val: the transfer_t it returns"""
        c, t = m.c, m.t
        f = m.ctx[x].fr.pop()
        if t is sparc64:
            c.R['%i0'], c.R['%i1'] = (val or (c.rnd(), c.rnd()))
            for k in range(2, 6): c.R['%%i%d' % k] = c.rnd()
            c.restore(None, 0)
            for n in ('%o2', '%o3', '%o4', '%o5', '%o7', '%g1', '%g4', '%g5'): c.R[n] = c.rnd()
            c.R[c.sp] = f.entry
            c.pc = f.ret
            return f
        if t.shadow:
            if c.ssp != f.ssp: raise CheckError('shadow stack of the program')
            try: c.sspop(f.ret)
            except Fault as e: raise Dev('crash', str(e))
        m.scramble()
        for n, v in f.saved.items(): c.R[n] = v if n not in t.mask else (c.R[n] & ~t.mask[n]) | v
        if t.lr and t.lr != 'lr' and t is not s390x: c.R[t.lr] = f.ret
        elif t.lr: c.R[t.lr] = f.ret
        for o, n in f.own: m.clobber(f.base + o, n)
        c.R[c.sp] = f.entry
        m.below(1024)
        if val is not None:
            if t.ret == 'regs': c.R[t.retregs[0]], c.R[t.retregs[1]] = val
            elif t.ret == 'packed': c.R[t.retregs[0]] = val[0] | val[1] << 32
            else:
                m.w(f.sret, val[0]); m.w(f.sret + t.ptr, val[1])
                if t.sretreg: c.R[t.sretreg] = f.sret
        if t.push: c.R[c.sp] = f.base + (t.popsret if f.sret is not None and t.ret == 'sret' else 0)
        c.pc = f.ret
        return f
    def make(m, x, step):
        c, t = m.c, m.t
        cur = m.cur
        lo, hi = m.stacks[x][0], m.stacks[x][1]
        X = m.ctx[x]
        top = hi - m.rng.randrange(0, 64)
        size = top - lo - m.rng.randrange(0, 64)
        X.top, X.lo = top, top - size
        X.jump = None; X.fr = []
        X.fn = m.magic + 0x100 + 16 * x
        sp = m.callsp(cur)
        m.nret += 1
        ret = m.magic + RETN + 16 * (m.nret % 0x8000)
        if t.teb: teb = m.tebnew(cur)
        env = m.getenv()
        m.clobber(X.lo, 0); r = m.stacks[x]; r[2][:] = (m.garbage * 2)[:len(r[2])]
        if t.shadow:
            # as map_shadow_stack() leaves it
            b = m.shst[x]; ssp = c.ssp
            for k in range(0, 0x1000, 8): c.ss[b + k] = 0
            k = b + 0x1000 - 8 * m.rng.randrange(0, 8)
            c.ss[k - 8] = k | 1
            m.w(top - 8, k)
        saved = m.call(c.labels['make'], [top, size, m.desc(X.fn)], ret, sp)
        c.mem.allow = m.own(cur, sp) + [(X.lo, top)]
        at = m.run()
        where = 'make_fcontext(%d)' % x
        if at != ret - m.magic: raise Dev('event', '%s: control arrived at %s' % (where, m.name(at)))
        if c.R[c.sp] != sp: raise Dev('registers', '%s: the stack pointer is 0x%x instead of 0x%x' % (where, c.R[c.sp], sp))
        m.common(cur, where)
        m.checksaved(saved, where)
        if t.shadow: m.sscheck(cur, ssp, where)
        m.checkenv(cur, env, where)
        if t.teb and m.tebget() != teb: raise Dev('registers', '%s: thread block' % where)
        rr = {'regs': t.retregs, 'packed': t.retregs}.get(t.ret)
        X.handle = c.R[rr[0] if rr else t.args[0] if not t.sretreg else t.sretreg]
        if t.cpu in (X86, I386): X.handle = c.R['rax']
        X.env0 = env
        if 'mxcsr' in t.env: pass
        c.R[c.sp] = m.ctx[cur].sp
        m.below(2048)
    def finish(m, x):
        c, t = m.c, m.t
        f = m.fnreturn(x, (c.rnd(), c.rnd()) if t.ret in ('regs',) else None)
        c.mem.allow = [(m.stacks[x][0], m.ctx[x].top)]
        at = m.run()
        where = 'return of the function of %d' % x
        if at != EXIT: raise Dev('event', '%s: control arrived at %s instead of _exit()' % (where, m.name(at)))
        sp = c.R[c.sp]
        a = (m.r(sp + c.word) if t.stackargs else c.R[t.args[0]]) & 0xffffffff
        if a: raise Dev('data', '%s: _exit(0x%x)' % (where, a))
        al, r = t.align
        if (sp + t.bias) % al != r % al: raise Dev('alignment', '%s: _exit() is called with the stack pointer 0x%x' % (where, sp))
        if not m.stacks[x][0] <= sp + t.bias <= m.ctx[x].top: raise Dev('bounds', '%s: stack pointer 0x%x' % (where, sp))
        how = c.trace[-1].rel[0] if c.trace[-1].rel else ('', '')
        if t.cpu is I386 and 'PLT' in how[0] and c.R['rbx'] != c.gotv: raise Dev('registers', '%s: EBX has not the address of the GOT at the call through the PLT' % where)
        if t.cpu is PPC32 and how[1].endswith('+0x8000') and c.R['30'] != c.got2 + 0x8000: raise Dev('registers', '%s: R30 has not the address the PLT needs' % where)
        if t.fnreg and c.R[t.fnreg] != c.pc and isinstance(c, MIPS): raise Dev('registers', '%s: register %s has not the address of _exit()' % (where, t.fnreg))
    def reset(m, seed, nd, ne):
        m.rng = random.Random(seed); t, c = m.t, m.c
        m.signals = m.rng.random() < .7
        m.nret = 0; m.cur = 0; m.ctx = {}; m.descs = {}
        bits = 8 * t.ptr
        m.dval = [0, (1 << bits) - 1, 1] + [m.rng.getrandbits(bits) for _ in range(nd)]
        m.rng.shuffle(m.dval)
        m.handler = m.rng.getrandbits(32)
        for x in range(1, m.nc + 1):
            C = m.ctx[x] = Ctx()
            C.top = m.stacks[x][1]; C.lo = m.stacks[x][0]; C.jump = None; C.fr = []; C.handle = None; C.sp = None
        m.ctx[1].sp = m.stacks[1][1] - 0x200 - t.bias
        m.scramble()
        c.R[c.sp] = m.ctx[1].sp
        if t is sparc64:
            c.wins = []; c.R['%i6'] = m.ctx[1].sp + 0x100; c.R['%i7'] = c.rnd() & ~3
        if t.shadow: c.ss.clear(); c.ssp = m.shst[1] + 0xf80
        for n in t.ded: c.R[n] = c.rnd()
        if isinstance(c, MIPS): c.R['$gp'] = c.gpval
        if t in (arm64win, arm64winasm): c.R['x18'] = m.teb
        m.dedv = {n: c.R[n] for n in t.ded}
        if m.tebseg:
            m.tebseg[2][:] = (m.garbage * 2)[:len(m.tebseg[2])]
            if t.cpu is X86 and t.teb: c.mem.wr(m.teb + 0x30, 8, m.teb)
            if t.cpu is I386 and t.teb: c.mem.wr(m.teb + 0x18, 4, m.teb)
            m.restteb = m.tebrest()
        m.cur = 1
        m.envs = [m.randenv() for _ in range(ne)]
        m.setenv(m.envs[0])
        m.ctx[1].handle = None
    def replay(m, steps, seed, nd, ne):
        """-> None or (step, class, message)"""
        m.reset(seed, nd, ne)
        c, t = m.c, m.t
        for k, s in enumerate(steps):
            cmd, x, h, d = s[0], s[1], s[2], s[3]
            try:
                if cmd == 'Make': m.make(x, s)
                elif cmd in ('Jump', 'Ontop'): m.transfer(cmd, x, d, s)
                elif cmd == 'OntopReturn':
                    cur = m.cur; X = m.ctx[cur]
                    hv = m.ctx[h].handle if h else 0
                    f = m.fnreturn(cur, (hv, m.dval[d]))
                    c.mem.allow = m.own(cur, f.entry)
                    X.jump = f.jump
                    if t.teb: X.jump.teb = m.tebget()
                    X.jump.env = m.getenv()
                    at = m.run()
                    where = 'return of the function on top of %d' % cur
                    m.common(cur, where)
                    X.sp = f.under
                    v = m.returned(cur, at, where)
                    if v[0] != hv: raise Dev('handle', '%s: handle 0x%x instead of 0x%x' % (where, v[0], hv))
                    m.deliver(None, v, d, where)
                elif cmd == 'Call':
                    X = m.ctx[m.cur]
                    f = Ctx(); f.kind = 'call'; f.sp = X.sp; X.fr.append(f)
                    if t is sparc64:
                        c.R['%o7'] = c.rnd() & ~3
                        c.save('%o6', X.sp - 176 - 16 * m.rng.randrange(0, 8), c.rnd)
                        X.sp = c.R['%o6']
                        f.below = dict(zip(c.window(), c.wins[-1][1]))
                    else: X.sp = (X.sp - 48 - 16 * m.rng.randrange(0, 8)) & ~15
                    if t.shadow: f.ssp = c.ssp; f.ra = m.rng.getrandbits(64); c.sspush(f.ra)
                    c.R[c.sp] = X.sp
                elif cmd == 'Pop':
                    X = m.ctx[m.cur]; f = X.fr.pop(); X.sp = f.sp
                    if t.shadow:
                        m.sscheck(m.cur, f.ssp - 8, 'return of a function')
                        try: c.sspop(f.ra)
                        except Fault as e: raise Dev('registers', str(e))
                    if t is sparc64:
                        c.restore(None, 0)
                        for n in c.window():
                            if c.R[n] != f.below[n]: raise Dev('registers', 'register window of a caller: %s is 0x%x instead of 0x%x' % (n, c.R[n], f.below[n]))
                    c.R[c.sp] = X.sp
                elif cmd == 'SetEnv':
                    if t.env: m.setenv(m.envs[d])
                elif cmd == 'Finish': m.finish(m.cur)
                if cmd != 'Finish' and m.cur != s[4]: raise Dev('control', 'context %d runs instead of %d' % (m.cur, s[4]))
                if t.env and cmd != 'Finish' and m.getenv() != m.envs[s[6]]:
                    raise Dev('fp', 'environment %s instead of %s' % ([hex(v) for v in m.getenv()], [hex(v) for v in m.envs[s[6]]]))
            except Dev as e:
                return k, e.cls, e.msg, '\n'.join('%s' % i.text for i in c.trace[-12:])
        return None

W = dict(Make=3, Jump=8, Ontop=5, OntopReturn=4, Call=2, Pop=2, SetEnv=4)
ND, NE, NC = 6, 5, 5
def generate(quick=True):
    """-> TSX -> behaviours; and what TLC reports"""
    ex = dict(NC=3, ND=2, NE=2, MaxDepth=2, MaxCmds=6 if quick else 8, Cmds=list(fctxmodel.CMDS))
    rnd = dict(NC=NC, ND=ND, NE=NE, MaxDepth=6, MaxCmds=60)
    num = 300 if quick else 4000
    J = [(x, f) for x in (False, True) for f in 'er']
    def one(j):
        x, f = j
        if f == 'e': c = dict(ex, TSX=x); return c, g_exhaustive('Fctx', c, fctxmodel.INV, fctxmodel.PRP)
        c = dict(rnd, TSX=x); return c, g_random('Fctx', c, W, num, SEED * 10 + 6 + x, fctxmodel.INV, procs=2)
    with ThreadPoolExecutor(4) as pool: res = list(pool.map(one, J))
    P = {False: [], True: []}
    for (x, _), (c, (paths, st)) in zip(J, res): P[x] += [p for p in paths if p]
    return P, [(c, paths, st) for c, (paths, st) in res]

TR = []
def shrunk(t, objs, steps, seed):
    m = Machine(t, objs, NC)
    return m.replay(steps, seed, ND, NE)
def work(job):
    """one part of the behaviours on one target -> (target, behaviours, steps, deviations, what is not decided)"""
    name, objs, paths = job
    t = BYNAME[name]
    n = steps = 0; out = {}
    try:
        m = Machine(t, objs, NC)
        for k, p in paths:
            r = m.replay(p, SEED * 100003 + k, ND, NE)
            n += 1; steps += len(p) if not r else r[0]
            if r:
                key = (p[r[0]][0], r[1])
                if key not in out or (r[0], k) < out[key][:2]: out[key] = (r[0], k, r[2], r[3])
    except Unknown as e: return name, n, steps, {}, 'not known: %s' % e
    except Exception as e: return name, n, steps, {}, 'emulator: %r' % e
    return name, n, steps, out, None

def forked(f, jobs):
    """f of every job, by NCPU processes (no other thread runs when they are forked, and they share a pipe only: each takes
    the number of a job from it, and leaves its results in a file)"""
    r, w = os.pipe()
    os.set_blocking(w, False)
    os.write(w, b''.join(struct.pack('<H', k) for k in range(len(jobs))))
    os.close(w)
    files = [SCRATCH + '/forked.%d' % k for k in range(NCPU)]
    sys.stdout.flush(); sys.stderr.flush()
    pids = []
    for name in files:
        pid = os.fork()
        if not pid:
            rc = 1
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                res = []
                while True:
                    k = os.read(r, 2)
                    if not k: break
                    res.append(f(jobs[struct.unpack('<H', k)[0]]))
                with open(name, 'wb') as o: pickle.dump(res, o)
                rc = 0
            finally: os._exit(rc)
        pids.append(pid)
    os.close(r)
    bad = [os.waitpid(pid, 0)[1] for pid in pids]
    if any(bad): raise CheckError('a process that replays behaviours ended with status %r' % bad)
    out = []
    for name in files:
        with open(name, 'rb') as i: out += pickle.load(i)
    if len(out) != len(jobs): raise CheckError('%d results of %d jobs' % (len(out), len(jobs)))
    return out

def run(chk):
    with ThreadPoolExecutor(NCPU) as pool:
        g = pool.submit(generate, not THOROUGH)
        b = {t.__name__: pool.submit(assemble, t, SCRATCH) for t in TARGETS}
        objs, skipped = {}, {}
        for t in TARGETS:
            try: objs[t.__name__] = b[t.__name__].result()
            except BuildFailed as e:
                skipped[t.__name__] = 'does not assemble here: ' + e.out[-300:]
            except (OSError, UnicodeError) as e: skipped[t.__name__] = repr(e)
        P, gen = g.result()
    for c, paths, st in gen:
        chk.add('states', st['states']); chk.add('transitions', st['generated'])
        chk.extra.setdefault('generation', []).append(dict(spec='Fctx', constants=cfg_consts(c).strip(), behaviours=len(paths), transitions_covered=st.get('merged_transitions', 0)))
        chk.sample(g_pretty(paths[len(paths) // 2][:12]), most=4)
    ordered = {x: sorted(enumerate(P[x]), key=lambda kp: -len(kp[1])) for x in P}
    jobs = []
    parts = 16 if THOROUGH else 3
    for t in TARGETS:
        if t.__name__ not in objs: continue
        ps = ordered[not t.env]
        for k in range(parts): jobs.append((t.__name__, objs[t.__name__], ps[k::parts]))
    per = {}
    for name, n, steps, out, why in forked(work, jobs):
        q = per.setdefault(name, dict(behaviours=0, steps=0, devs={}))
        q['behaviours'] += n; q['steps'] += steps
        if why: skipped.setdefault(name, why)
        for k, v in out.items():
            if k not in q['devs'] or v[:2] < q['devs'][k][:2]: q['devs'][k] = v
    shown = 0
    for t in TARGETS:
        q = per.get(t.__name__)
        if not q or t.__name__ in skipped: continue
        chk.add('traces_validated_against_impl', q['behaviours'])
        chk.extra['commands_replayed'] = chk.extra.get('commands_replayed', 0) + q['steps']
        devs = sorted(q.pop('devs').items(), key=lambda kv: kv[1][:2])
        q['deviations'] = len(devs)
        for (cmd, cls), (step, k, msg, trace) in devs[:2]:
            steps = P[not t.env][k]
            seed = SEED * 100003 + k
            r = shrunk(t, objs[t.__name__], steps, seed)
            if not r: continue
            what = '[%s: %s] behaviour %d, step %d (%s): %s: %s' % (t.__name__, '*_' + t.files, k, r[0], cmd, r[1], r[2])
            shown += 1
            chk.violation('%s %s %s' % (t.__name__, cmd, r[1]), what + '\n' + fctxmodel.LEGEND + '\n' + g_pretty(steps[:r[0] + 1]) + '\nlast instructions:\n' + r[3],
                {'behaviour.txt': json.dumps(steps), 'readable.txt': fctxmodel.LEGEND + '\n' + g_pretty(steps) + '\n', 'instructions.txt': r[3] + '\n',
                 'replay.json': json.dumps(dict(kind='asm', target=t.__name__, variant=t.__name__, seed=seed, steps=steps), indent=1)})
    chk.extra['targets'] = {t.__name__: dict(triple=t.triple, files='{make,jump,ontop}_' + t.files, flags=list(t.flags), **per[t.__name__]) for t in TARGETS if t.__name__ in per and t.__name__ not in skipped}
    for q in chk.extra['targets'].values(): q.pop('devs', None)
    chk.extra['targets_decided'] = len(chk.extra['targets'])
    if skipped: chk.extra['targets_not_decided'] = skipped; print('not decided:', ', '.join(sorted(skipped)))
    if not chk.extra['targets']: raise CheckError('no target could be decided: %r' % skipped)

def again(r):
    """a saved replay"""
    t = BYNAME[r['target']]
    d = shrunk(t, assemble(t, SCRATCH), [tuple(s) for s in r['steps']], r['seed'])
    if d: print('DEVIATES at step %d: %s: %s' % d[:3]); return 1
    print('no deviation: 1 behaviour, %d steps as specified' % len(r['steps'])); return 0

BYNAME = {t.__name__: t for t in TARGETS}

if __name__ == '__main__':
    import pickle, collections
    f = '/tmp/asmpaths.pkl'
    P = pickle.load(open(f, 'rb'))
    for t in TARGETS:
        if len(sys.argv) > 1 and t.__name__ not in sys.argv[1:]: continue
        try: objs = assemble(t, SCRATCH)
        except BuildFailed as e: print(t.__name__, 'BUILD', e.out[:300]); continue
        tsx = not t.env
        t0 = time.time()
        try:
            m = Machine(t, objs, 5)
            C = collections.Counter(); first = {}
            n = 0
            for k, p in enumerate(P[tsx][0][:400] + P[tsx][1]):
                r = m.replay(p, k, 6, 5); n += len(p)
                if r:
                    key = re.sub(r'0x[0-9a-f]+', 'N', re.sub(r'^.*?: ', '', r[2]))
                    C[r[1], key] += 1
                    first.setdefault((r[1], key), (k, r))
            print('%-12s %6d steps %.1fs' % (t.__name__, n, time.time() - t0), 'OK' if not C else '')
            for key, cnt in C.most_common(6):
                k, r = first[key]
                print('   %4d %s: %s\n      %s' % (cnt, r[1], r[2], r[3].replace('\n', '\n      ') if os.environ.get('V') else ''))
        except Unknown as e: print(t.__name__, 'UNKNOWN', e)
        except Exception as e:
            print(t.__name__, 'ERROR'); traceback.print_exc() if os.environ.get('V') else print('   ', repr(e)[:200])
