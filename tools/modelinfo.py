"""property -> (technique, level note); None: the ones of the context model"""
INFO = {p: (None, None) for p in 'C01 C02 C05 C06 C07 C08 C09 C11 C12 C13 C17 C18 C24 C25 C26'.split()}
_N = ('TLC checks the specification within the bounds in the evidence; the behaviours it generates are executed by the real code and '
      'every observation is compared. Trusted: TLC, the harness, x86_64 Linux with gcc. ')
def _t(spec, how): return 'TLA+ (%s) checked with TLC; %s' % (spec, how)
INFO['C03'] = INFO['C04'] = INFO['C22'] = (
    _t('Context.tla and Fctx.tla', 'TLC behaviours replayed in the real library, through its C++ interfaces and the assembler interface'), None)
INFO['C10'] = (_t('Context.tla and StackAlloc.tla', 'TLC behaviours replayed in the real library with instrumented allocators and system calls'), None)
INFO['C14'] = INFO['C15'] = (
    _t('StackAlloc.tla', 'TLC histories of allocators, stacks and contexts replayed against the real allocators with injected failures of the system calls'),
    _N + 'The system calls behind the allocators are recorded and made to fail by link-time wrappers.')
INFO['C16'] = (
    _t('StackAlloc.tla and Refcount.tla', 'TLC histories replayed with real pools; every interleaving TLC enumerates of the reference counting forced onto the real code, plus thread sanitizer runs'),
    _N + 'The interleavings treat every atomic operation as one step (sequential consistency); weaker orders are left to the thread sanitizer.')
INFO['C19'] = (_t('Fctx.tla', 'TLC behaviours replayed with the assembler routines'), _N)
INFO['C20'] = (_t('StackTraits.tla', 'TLC behaviours executed in processes with the chosen resource limits'), _N)
INFO['C21'] = (_t('Forward.tla', 'one program case per behaviour TLC enumerates, generated, compiled and compared'),
    _N + 'Arguments beyond the third follow a fixed pattern.')
INFO['C27'] = (
    _t('StackAlloc.tla', 'TLC histories replayed against the real allocators built with valgrind support, the requests to valgrind recorded and compared with the stacks the specification has allocated'),
    _N + 'The valgrind header is replaced by one that records the requests.')
INFO['C28'] = (
    _t('Context.tla, StackAlloc.tla, StackTraits.tla, WinFiber.tla', 'TLC behaviours replayed with the Windows sources on an implementation of the fiber API, the recorded API calls validated as behaviours of WinFiber.tla by TLC'),
    _N + 'Also trusted: harness/winapi.cpp does what the documentation of the Windows API says. The compilers of Windows are not covered.')
INFO['C23'] = (
    _t('Context.tla, SanFiber.tla', 'TLC behaviours replayed in the real library under the sanitizers, and with a stand-in for the fiber interface of the sanitizers whose recorded calls TLC validates as behaviours of SanFiber.tla'),
    _N + 'Also trusted: the reports of the sanitizer runtimes of gcc and clang.')
INFO['C30'] = (
    _t('Context.tla', 'TLC behaviours replayed in the real library built for shadow stacks, the shadow stack instructions and map_shadow_stack() replaced by software that checks tokens and mappings'),
    _N + 'Also trusted: harness/shstk.h and shstk.cpp behave as the processor and kernel; that calls and returns agree with the shadow stack is decided by the emulation of C29.')
INFO['C29'] = (
    _t('Fctx.tla', 'TLC behaviours replayed by the assembler files of 43 platform variants, executed by emulators of their instruction sets'),
    _N + 'Also trusted: tools/isa.py executes the instructions the files use as the architectures define them, tools/asmmodel.py states the calling conventions; files in the syntax of foreign assemblers are converted or assembled by llvm-ml.')
