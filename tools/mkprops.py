import json, os
P=[]
FF='include/boost/context/fiber_fcontext.hpp'; FU='include/boost/context/fiber_ucontext.hpp'
CF='include/boost/context/continuation_fcontext.hpp'; CU='include/boost/context/continuation_ucontext.hpp'
ASM=['src/asm/make_x86_64_sysv_elf_gas.S','src/asm/jump_x86_64_sysv_elf_gas.S','src/asm/ontop_x86_64_sysv_elf_gas.S']
SRC=['src/fiber.cpp','src/continuation.cpp']
def p(id,title,statement,over,text,why,files,mech,state=[],obs=[]):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=obs,hook_needed=None))
    P.append(d)
p('C01','Resuming a context continues exactly that context where it left off',
 'Resuming a valid handle suspends the caller and continues the designated context exactly at its most recent suspension point, or at the start of its function if it never ran. At every moment exactly one context per thread runs, no context ever runs without having been resumed, and no suspended context makes progress.',
 ['programs','histories'],'every program of contexts that resume one another in any order, from any call depth, through any chain of handles (symmetric and asymmetric transfer)',
 'The tests resume one or two contexts in fixed ping-pong sequences between main and one context; arbitrary transfer graphs between three or more contexts, and resumption from nested frames, are never run, and no installed test build reaches the ucontext implementation at all.',
 [FF,FU,CF,CU]+ASM+SRC,[('jump_fcontext','src/asm/jump_x86_64_sysv_elf_gas.S'),('resume','include/boost/context/fiber_ucontext.hpp'),('swapcontext switch','include/boost/context/continuation_ucontext.hpp')],
 [('current record','which context runs on this thread (ucontext)','src/fiber.cpp')],['return of resume()','entry of the context function'])
p('C02','The delivered handle is the one suspended resumer; handles are one-shot',
 'When control arrives in a context, the handle it is given denotes exactly the context that was suspended to get there, and is empty exactly if that context has terminated. Each suspended context is designated by exactly one valid handle in the whole program, and the handle used to resume becomes empty.',
 ['programs','histories'],'every history of creations, resumes, moves and terminations of up to several contexts, including transfers where the context that resumes back is not the one that was resumed',
 'The tests only check the handle of a single partner; the identity and uniqueness of handles after third-party transfers is a whole-history property.',
 [FF,FU,CF,CU],[('from pointer hand-over',FU),('transfer_t.fctx','src/asm/jump_x86_64_sysv_elf_gas.S'),('exchange(ctx,nullptr)',FF)],
 [('from','context that resumed this one',FU)],['operator bool of every handle','context reached by resuming it'])
p('C03','Suspension preserves locals, the stack and callee-saved registers',
 'Whatever other contexts do between the suspension of a context and its resumption, its automatic variables, its call chain and its stack contents are unchanged when it continues, as are the registers a function call must preserve; stacks of different contexts never overlap.',
 ['programs','inputs'],'all interleavings of contexts with nested call frames; all register values; all stack sizes used',
 'A test that passes with the compiler keeping its few live values in memory says nothing about registers or deep frames; only one or two interleavings are run.',
 [FF,FU,CF,CU]+ASM,[('register save area','src/asm/jump_x86_64_sysv_elf_gas.S'),('register save area','src/asm/ontop_x86_64_sysv_elf_gas.S'),('initial frame','src/asm/make_x86_64_sysv_elf_gas.S')],[],['frame canaries after each switch','rbx rbp r12-r15 after jump_fcontext/ontop_fcontext'])
p('C04','Each context has its own floating-point control environment',
 'Rounding mode, exception masks and precision of the SSE and x87 units set by a context are in force whenever that context runs and never leak into another context. A new context starts with the environment its creator had when it created it.',
 ['programs','inputs'],'every sequence of environment changes and switches between any number of contexts, including changes made in nested frames, in functions run on top of another context, and during unwinding; all environment values',
 'test_fp computes one product; no test changes the environment, and the value in force depends on the whole history of switches.',
 ASM+[FU,CU],[('stmxcsr/fnstcw ... ldmxcsr/fldcw','src/asm/jump_x86_64_sysv_elf_gas.S'),('initial environment','src/asm/make_x86_64_sysv_elf_gas.S')],[('fc_mxcsr, fc_x87_cw','saved environment','src/asm/jump_x86_64_sysv_elf_gas.S')],['MXCSR and x87 control word at every step'])
p('C05','A function run on top of a context executes there exactly once',
 'Resuming a context with a function runs that function exactly once, on the resumed context, on its stack and before anything else of it, with the handle of the resumer; whatever handle the function returns is what the resumed context receives, and the function object keeps its state until it has finished and is destroyed then. This holds for contexts that never ran, for callables passed as lvalue or rvalue, and when the function itself switches contexts or takes functions on top.',
 ['programs','inputs'],'every state of the target (never started, suspended, suspended inside another function on top), every callable kind, every behaviour of the function (return any handle, empty handle, switch, throw)',
 'The tests inject one stateless rvalue lambda into one suspended context; re-entrancy, unstarted targets and lvalue callables are not run.',
 [FF,FU,CF,CU]+ASM[2:],[('ontop_fcontext','src/asm/ontop_x86_64_sysv_elf_gas.S'),('fiber_ontop',FF),('context_ontop',CF),('ontop std::function',FU)],[('ontop','pending function',FU)],['entry of the function','handle returned by resume in the target'])
p('C06','Exceptions stay within a context; a function on top can throw into it',
 'An exception thrown in a context is seen only by handlers of that context, intact, and never in another one; an exception leaving a function run on top of a context is thrown from the suspended resume call of that context. An exception that leaves a context function, other than the library\'s own unwinding, terminates the program.',
 ['programs','histories'],'every placement of throw and handler over call depths and contexts, with switches between throw, unwinding (destructors that switch) and handler',
 'Tests throw once from one function on top; later resumes of the same context and nested handlers are not exercised.',
 [FF,FU,CF,CU],[('noexcept entry function',FF),('forced_unwind catch',FU)],[('forced_unwind','unwinding signal','include/boost/context/detail/exception.hpp')],['handler entered, payload, std::terminate'])
p('C07','Destroying a suspended context unwinds its stack exactly once, then returns',
 'Destroying the valid handle of a suspended context destroys every automatic object on its stack exactly once, innermost first, and only then returns to the destroying context, whichever context that is; no other context runs unless a destructor switches to it. Destructors that themselves create, resume, terminate or destroy other contexts work as on any other stack, and the context being unwound never continues its function.',
 ['programs','histories'],'every suspended state (any call depth, inside a function on top, inside handlers), any destroying context, handle destroyed by scope exit, assignment, exception or another unwinding; chains of contexts destroying one another',
 'Tests destroy one context suspended directly in its function and count one destructor; cascades, third-party destroyers and destructors that switch are not reached.',
 [FF,FU,CF,CU],[('~fiber',FF),('fiber_unwind',FF),('force_unwind flag',FU),('run() catch',FU)],[('force_unwind','unwinding requested',FU)],['destructor log, running context after each destructor'])
p('C08','Destroying a context that never ran does not run it',
 'Destroying the handle of a context whose function was never entered never invokes the function, destroys the stored callable exactly once, releases its stack, and returns to the destroyer.',
 ['programs','histories'],'every way a never-started handle can die: scope exit, overwritten, inside another context being unwound, after being moved around, on another thread',
 'No test destroys a never-started context and checks that its function did not run.',
 [FF,FU],[('fiber_entry first jump',FF),('fiber_capture_record::run',FU)],[],['entry of the context function','callable destructor','allocator deallocate'])
p('C09','A terminating context passes control to the handle it returns',
 'When a context function returns a valid handle, that context terminates after all its automatic objects are destroyed, and control continues in exactly the context the returned handle designates (starting it if it never ran), which receives an empty handle. A terminated context never runs again.',
 ['programs','histories'],'every choice of the returned handle among all live contexts, from every creation and resumption history',
 'Tests return the handle of the immediate resumer; returning another context\'s handle, or one that never ran, is hardly exercised.',
 [FF,FU,CF,CU],[('fiber_exit',FF),('run() tail',FU)],[('terminated','function finished',FU)],['next running context; validity of its handle'])
p('C10','Every stack is released exactly once, by its own allocator, never in use',
 'The stack of a context is released exactly once, through the allocator it was created with and with the descriptor that allocator returned, after the stored callable is destroyed; it is released no later than the handle that reports the termination is destroyed. No memory of the stack is touched by the library after its release, and it is never released while the context can still run.',
 ['programs','histories'],'every way a context ends (return, unwinding, never started, in a cascade, on another thread), for every allocator kind and value category',
 'Leaks, double releases and late touches do not change the result of a unit test; the tests count nothing.',
 [FF,FU,CF,CU],[('record::destroy',FF),('deallocate',FU)],[('salloc_','stored allocator',FF),('sctx_','stack descriptor',FF)],['allocate/deallocate calls of an instrumented allocator; access-protected released stacks'])
p('C11','Handles have move-only value semantics',
 'Moving or swapping handles never runs, destroys or duplicates a context: the source of a move becomes empty, swap exchanges, assigning a handle to itself changes nothing, and assigning over a valid handle destroys exactly the context it designated. Validity, ordering and stream output agree with the designated context: empty handles are equivalent, distinct suspended contexts are strictly ordered one way and print differently.',
 ['histories'],'every sequence of move construction, move assignment (including self), swap, comparison and printing over handles of contexts in every state',
 'test_move and test_sort check a few fixed sequences.',
 [FF,FU,CF,CU],[('move assignment through temporary',FF),('swap',FF),('operator<',FU)],[],['operator bool, operator!, operator<, operator<<'])
p('C12','The context function is stored, invoked once and destroyed correctly',
 'The callable given to a new context is moved from if it was an rvalue and copied without modification if it was an lvalue, is stored with its own alignment (of up to 256 bytes) inside the stack, is invoked exactly once with the handle of the resumer, and is destroyed exactly once after the context terminated. This holds for function objects of any size that fits, member pointers and plain functions, for every allocator value category.',
 ['inputs','configurations'],'callable kinds, sizes, alignments, value categories of callable and allocator, stack sizes and positions',
 'Tests use small lambdas and a few functors; alignment and size of captured state determine the layout computed by pointer arithmetic.',
 [FF,FU,CF,CU,'include/boost/context/detail/invoke.hpp'],[('create_fiber1 layout',FF),('create_context1 layout',CU)],[('fn_','stored callable',FF)],['addresses, contents and lifetime events of the callable'])
p('C13','Preallocated stack space is respected',
 'A context created on a preallocated region lives entirely below the given stack pointer and within the described stack; the memory above it, reserved by the caller, is never modified by the library. When the context ends the given allocator receives the original descriptor.',
 ['inputs','programs'],'all sizes and alignments of the reserved area, all stack sizes, all programs run on it',
 'The one preallocated test reserves one object and does not check its bytes afterwards against arbitrary use.',
 ['include/boost/context/preallocated.hpp',FF,FU,CF,CU],[('create_fiber2',FF),('create_context2',CU)],[],['bytes of the reserved area; addresses of frames'])
p('C14','Stack allocators hand out disjoint regions of the requested size or throw',
 'Each stack allocator returns a readable and writable region of at least the requested usable size just below the reported stack pointer, disjoint from every region that is still allocated, and reports failure of the underlying system by throwing std::bad_alloc without leaking; releasing returns exactly the region to the system.',
 ['inputs','histories','fault_sequences'],'all sizes around page multiples, all interleavings of allocate and deallocate over copies of allocators, failure of any single underlying memory call',
 'The existing tests allocate a few default-size stacks and never make an allocation fail.',
 ['include/boost/context/fixedsize_stack.hpp','include/boost/context/pooled_fixedsize_stack.hpp','include/boost/context/posix/protected_fixedsize_stack.hpp','include/boost/context/posix/segmented_stack.hpp'],
 [('allocate/deallocate','include/boost/context/fixedsize_stack.hpp')],[],['malloc, free, mmap, munmap calls; returned descriptors'])
p('C15','The protected allocator puts an inaccessible guard page below each stack',
 'Every stack from the protected allocator has at least the requested number of usable bytes, and the page directly below them is inaccessible for as long as the stack is allocated, so that overflow by less than a page faults instead of corrupting memory. If the guard cannot be established the allocation fails.',
 ['inputs','fault_sequences'],'all requested sizes, all numbers of simultaneously allocated stacks, failure of the protection call',
 'No test touches the guard page or makes its protection fail.',
 ['include/boost/context/posix/protected_fixedsize_stack.hpp'],[('mprotect','include/boost/context/posix/protected_fixedsize_stack.hpp')],[],['accessibility of every page of the region'])
p('C16','A stack pool lives exactly as long as something refers to it',
 'All copies of a pooled allocator share one pool; its memory stays valid while any copy exists or any context created through a copy still has its stack, including when the last reference is a terminating context, and is released exactly once after that, even if copies are made and destroyed concurrently by several threads.',
 ['histories','schedules'],'every order of copying, moving, destroying allocator copies and of creating and ending contexts with them; every interleaving of reference count updates',
 'Tests keep the allocator alive in main throughout.',
 ['include/boost/context/pooled_fixedsize_stack.hpp',FF,FU],[('use_count_','include/boost/context/pooled_fixedsize_stack.hpp'),('record::destroy moves allocator out',FF)],[('use_count_','references','include/boost/context/pooled_fixedsize_stack.hpp')],['system allocations and releases of the pool'])
p('C17','A failed context creation changes nothing',
 'If creating a context fails because the stack cannot be allocated or the system cannot capture a context, an exception is thrown to the creator, every stack obtained is given back to its allocator, the callable is destroyed if it was stored and remains with the creator unchanged if there was no stack to store it on, and the creator, its handles and all other contexts are unaffected.',
 ['fault_sequences','programs'],'failure at every creation in every program, for every allocator value category and both failing operations',
 'No test makes creation fail.',
 [FF,FU,CF,CU],[('getcontext error path',FU),('allocate before record',FF)],[],['exception type; allocator and callable events'])
p('C18','Contexts on different threads are independent and may migrate',
 'Contexts running on different threads do not influence one another, and a context suspended on one thread can be resumed on another, where it keeps everything a context keeps and returns to whichever context resumed it last. Each thread\'s own initial context needs no setup and survives any number of contexts.',
 ['schedules','programs'],'all interleavings of the switches of two threads each running several contexts, with handles handed between threads',
 'No test uses a second thread.',
 [FF,FU,CF,CU]+SRC,[('thread_local current record','src/fiber.cpp'),('schwarz counter','src/continuation.cpp')],[('fib_current_rec','current context of a thread','src/fiber.cpp')],['running context and thread at every step'])
p('C19','Low-level jumps transfer data and handles exactly and enter aligned',
 'A low-level jump returns in the target, or enters its function, with the data pointer passed by the jumper and the handle of the jumper, for any data value; a function given on top receives them instead and its result is what the suspended jump returns. A new context starts with the stack aligned as the ABI requires, below the given top, wherever that top is; when its function returns, the process exits with status 0.',
 ['inputs','programs'],'all data words, all stack tops and sizes, all jump graphs over several contexts',
 'test_fcontext covers a handful of fixed jumps with aligned stacks.',
 ASM+['include/boost/context/detail/fcontext.hpp'],[('make_fcontext',ASM[0]),('jump_fcontext',ASM[1]),('ontop_fcontext',ASM[2])],[],['transfer_t in registers; rsp at entry'])
p('C20','Stack size queries agree with the system configuration',
 'The reported page size is the system\'s, the stack is reported unbounded exactly if the hard stack resource limit (read once, when first asked for) is unlimited and otherwise the maximum is that limit, the default and minimum sizes are usable for a context, and minimum <= default; answers never change while the process runs.',
 ['configurations','histories'],'all resource limit settings at first use, any later change of the limits, any order and thread of queries',
 'Tests read the values in one environment only.',
 ['src/posix/stack_traits.cpp','include/boost/context/stack_traits.hpp'],[('cached static limit','src/posix/stack_traits.cpp')],[],['return values in processes with chosen limits'])
p('C21','Invocation and tuple helpers forward every argument exactly',
 'The invocation and apply helpers call the given callable exactly once with every argument in order, with its value category and without extra copies, and return its result unchanged; the tuple head and tail helpers deliver exactly the leading or trailing elements in order, copied from lvalues and moved from rvalues.',
 ['inputs'],'all callable kinds, arities, element counts and value categories',
 'The tests check a few combinations; value categories of elements are a product space.',
 ['include/boost/context/detail/invoke.hpp','include/boost/context/detail/apply.hpp','include/boost/context/detail/tuple.hpp','include/boost/context/detail/exchange.hpp'],[('invoke','include/boost/context/detail/invoke.hpp'),('apply','include/boost/context/detail/apply.hpp'),('head/tail','include/boost/context/detail/tuple.hpp')],[],['argument identity, category and copy count seen by the callee'])
p('C22','With the stack-guard option each context keeps its own stack guard',
 'When built with the per-context stack guard option, the stack-protector guard value in force is saved and restored with each context: a new context starts with the value its creator had at creation, changes made by one context do not affect others, and creating or switching contexts never modifies the stack of the caller.',
 ['configurations','programs'],'all guard values and all switch sequences in the optional build configuration',
 'No test builds this configuration.',
 ASM,[('BOOST_CONTEXT_TLS_STACK_PROTECTOR',ASM[0])],[('guard slot 0x8','saved guard',ASM[1])],['guard word in thread storage; caller frame'])
p('C23','Sanitizer-annotated builds report no error on correct programs',
 'Built with the library\'s address- or thread-sanitizer support, any correct program of contexts behaves as in a normal build, and the sanitizer reports no stack, use-after-return or race error that the program does not contain; each thread\'s and context\'s stack bounds as known to the sanitizer are those of the running context, and nothing the sanitizer keeps for a context outlives it.',
 ['configurations','programs'],'all programs of contexts in the sanitizer configurations',
 'No test is built with the sanitizer support of the library.',
 [FU,CU],[('__sanitizer_start_switch_fiber',FU),('__tsan_switch_to_fiber',FU)],[('fake_stack, stack_bottom, stack_size','sanitizer view',FU)],['sanitizer reports and stack bounds'])
p('C24','All implementations and interfaces behave alike',
 'Any program of contexts has the same observable behaviour (control transfers, handle validity, destructor and handler order, values) under the assembler and the ucontext implementation, with segmented stacks, with the fiber and the call/cc interface, with every supported language standard, and with assertions enabled. Both interfaces may be used in one program, in one or several translation units, without changing what the other one does.',
 ['programs','configurations'],'all programs over the whole API, all build configurations available on the platform, programs that use both interfaces and many contexts',
 'Each test runs separately per configuration and samples a few programs; the installed test variants named native and segmented in fact build the assembler implementation.',
 [FF,FU,CF,CU]+SRC+ASM,[('fiber',FF),('fiber',FU),('callcc',CF),('callcc',CU)],[],['complete event log of every program'])
p('C25','A resumption that fails before the switch changes nothing',
 'If the function passed to resume_with() cannot be stored because copying or moving it throws, the exception reaches the caller of resume_with(); the handle still designates the suspended context, no context is resumed, entered or destroyed, nothing of the function is left behind, and every later operation behaves as if the attempt had not been made.',
 ['fault_sequences','programs'],'a failing copy or move at every resume_with() of every program: targets suspended, never started, inside another function on top; callers at any depth; lvalue and rvalue functions',
 'No test passes a function whose copy fails; the damage (a wrong running context, a lost handle) shows only in later operations.',
 [FF,FU,CF,CU],[('resume_with',FF),('resume_with',FU),('set_ontop',FU)],[('ontop','pending function',FU),('current()','running context',FU)],['exception at the caller; validity of the handle; all later observations'])
p('C26','Threads and the process may end while contexts exist',
 'A thread may end while contexts it created or ran live on, and contexts may be created, resumed and destroyed by the destructors of objects with thread or static storage duration; exit() may be called by any context. Handles destroyed then unwind and release their contexts as at any other time, no context on another thread is affected, and a thread that has ended leaves nothing behind that the library kept for it (unless its very last thread-local destructors still used contexts).',
 ['histories','schedules'],'every point at which a thread or the process can end: in the initial context, in another context, in nested frames, in destructors run by an unwinding; handles with automatic, thread and static storage duration, in every order of destruction relative to the library\'s own thread-local data',
 'Tests end in main() with everything destroyed; the order of thread-local and static destructors relative to the library\'s own state is never varied.',
 SRC+[FU,CU,FF,CF],[('activation_record_initializer',SRC[0]),('current()',SRC[1])],[('fib_current_rec, counter','record of the running context, per thread',SRC[0])],['destructor events and releases until the end of the thread or process; exit status'])
p('C27','Valgrind is told of exactly the stacks that exist',
 'Built with the library\'s valgrind support, every stack an allocator hands out is registered exactly once, with bounds that cover the stack and end at its stack pointer, until it is given back: then exactly that registration is removed, before its memory is released. A failed allocation leaves nothing registered, and the contexts and allocators behave as in a normal build.',
 ['histories','configurations','fault_sequences'],'all histories of allocations, contexts and failures with every stack allocator that supports valgrind',
 'No test builds this configuration; a stale or wrong registration only misleads valgrind in the programs of users.',
 ['include/boost/context/fixedsize_stack.hpp','include/boost/context/pooled_fixedsize_stack.hpp','include/boost/context/posix/protected_fixedsize_stack.hpp','include/boost/context/stack_context.hpp'],[('VALGRIND_STACK_REGISTER','include/boost/context/fixedsize_stack.hpp'),('VALGRIND_STACK_REGISTER','include/boost/context/pooled_fixedsize_stack.hpp'),('VALGRIND_STACK_REGISTER','include/boost/context/posix/protected_fixedsize_stack.hpp')],[('valgrind_stack_id','registration of the stack','include/boost/context/stack_context.hpp')],['requests made to valgrind'])
p('C28','The Windows implementation keeps every promise on the documented API',
 'Built with BOOST_USE_WINFIB, contexts behave as with the other implementations, given an operating system that does what the documentation of its fiber and virtual memory functions says and that may refuse to create a fiber or to protect a page. The library calls these functions only in ways they allow: no fiber is switched to or deleted while it runs, after it was deleted, or from a thread that is no fiber, every created fiber is deleted exactly once, a thread that was a fiber before stays one, and a thread that the library made a fiber is none any more when it ends.',
 ['programs','fault_sequences','configurations'],'all programs of contexts on several threads, ends of threads and of the process, failing creation, threads converted to fibers beforehand or not, all histories of the Windows stack allocators',
 'No test of the installed suite builds the Windows sources, and none anywhere makes a fiber function fail.',
 ['include/boost/context/fiber_winfib.hpp','include/boost/context/continuation_winfib.hpp','include/boost/context/windows/protected_fixedsize_stack.hpp','src/windows/stack_traits.cpp']+SRC,
 [('resume','include/boost/context/fiber_winfib.hpp'),('fiber_activation_record',SRC[0]),('allocate','include/boost/context/windows/protected_fixedsize_stack.hpp')],
 [('fiber','handle of the system','include/boost/context/fiber_winfib.hpp')],['calls of the Windows API','everything observed for the other implementations'])
p('C29','The assembler routines of every platform keep its calling convention',
 'On every architecture and binary format with assembler routines, make_fcontext, jump_fcontext and ontop_fcontext transfer control, data and handles as the low-level interface promises, and keep what the calling convention of the platform promises to callers and to the functions they enter: preserved registers, alignment and ownership of stack memory, the registers and the fields of the thread block that belong to the thread, the exit with status 0 of a finished context function. Nothing below a suspended stack pointer is relied upon.',
 ['configurations','programs','inputs'],'all sequences of creations, jumps and functions run on top, with any stack top, data and register contents, on x86, x86-64, x32, ARM, ARM64, RISC-V, LoongArch, MIPS, PowerPC, S390x and SPARC in the ELF, Mach-O, PE and XCOFF variants that can be assembled here',
 'The tests run on the platform of the build only.',
 ['src/asm'],[('jump_fcontext','src/asm/jump_arm64_aapcs_elf_gas.S'),('ontop_fcontext','src/asm/ontop_ppc64_sysv_elf_gas.S'),('make_fcontext','src/asm/make_x86_64_ms_pe_masm.asm')],[('context-data','register save area on the stack','src/asm/jump_arm64_aapcs_elf_gas.S')],['registers, memory and control at every entry and return'])
p('C30','Shadow stacks: every context has its own, until it ends',
 'Built for Intel shadow stacks (SHADOW_STACK_SYSCALL), contexts behave as without them. The library switches shadow stacks with valid tokens only, every context has exactly one shadow stack from its creation until its stack is released, which is unmapped as a whole and never while it is in use. A refused map_shadow_stack() is reported as std::system_error and leaves neither stack nor callable behind.',
 ['programs','configurations','fault_sequences'],'all programs of contexts on several threads, with failing creations, destruction of contexts in any state, and ends of threads',
 'The tests cannot run where the processor or kernel lacks shadow stacks, and no test makes the mapping fail.',
 [FF,CF]+ASM,[('create_fiber1, create_fiber2, fiber_exit',FF),('create_context1, create_context2, context_exit',CF),('rstorssp, saveprevssp',ASM[1]),('rstorssp, saveprevssp',ASM[2]),('rdsspq',ASM[0])],
 [('ss_base, ss_size','shadow stack of a context',FF),('SSP','saved shadow stack pointer',ASM[1])],['map_shadow_stack() and munmap() calls','everything observed for the other builds'])
import sys
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
import re
for d in P:
    n=len(re.findall(r'[.](\s|$)',d['statement'])); 
    if n>3: print(d['id'],n)
