// The instructions for shadow stacks, in software: the routines of the library are assembled with them. The shadow stack
// pointer is sw_ssp of harness/shstk.cpp; calls and returns do not move it, so incssp has nothing to undo.
#ifdef __ASSEMBLER__
.macro rdsspq r
    movq %fs:sw_ssp@tpoff, \r
    testq \r, \r
    jne 9876f
    movq %fs:0, \r
    leaq sw_ssbuf@tpoff+256(\r), \r
    movq \r, %fs:sw_ssp@tpoff
9876:
.endm
.macro incsspq r
    nop
.endm
// the token says where the new shadow stack pointer is; it is replaced by one of the previous shadow stack
.macro rstorssp m
    pushq %rax
    pushq %rdx
    leaq \m, %rax
    movq (%rax), %rdx
    subq $9, %rdx
    cmpq %rdx, %rax
    je 9876f
    ud2
9876:
    movq %fs:sw_ssp@tpoff, %rdx
    orq $3, %rdx
    movq %rdx, (%rax)
    movq %rax, %fs:sw_ssp@tpoff
    popq %rdx
    popq %rax
.endm
.macro saveprevssp
    pushq %rax
    pushq %rdx
    movq %fs:sw_ssp@tpoff, %rax
    movq (%rax), %rdx
    testb $2, %dl
    jne 9876f
    ud2
9876:
    addq $8, %rax
    movq %rax, %fs:sw_ssp@tpoff
    andq $-4, %rdx
    leaq 1(%rdx), %rax
    movq %rax, -8(%rdx)
    popq %rdx
    popq %rax
.endm
#else
// what the harness uses of harness/shstk.cpp
extern bool shst_fail;                 // map_shadow_stack() fails
extern volatile int shst_live;         // shadow stacks mapped and not unmapped
extern void (*shst_misuse)( const char * what);
#endif
