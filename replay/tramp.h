/* Calls generated code with chosen register contents and checks what the platform's calling convention promises.
   struct ts (in words): 0 code, 1 ia[8], 9 csi[24], 33 cso[24], 57 ret, 58 ret2, 59 spin, 60 spout, 61 oldsp; then floats: fa[8], fcsi[16], fcso[16], fret */
struct ts { sljit_uw code, ia[8], csi[24], cso[24], ret, ret2, spin, spout, oldsp, pad[2]; unsigned long long fa[8], fcsi[16], fcso[16], fret; };
/* what a call from generated code looked like; the callee fills it in and C decides the result */
struct fr { sljit_uw ia[8], sp, ra, ret, ret2; sljit_uw kind, pad[3]; unsigned long long fa[8], fret; };
struct ts *tst_p; 
void tst_tramp(struct ts *p); void tst_after(void); void tst_after2(void); void tst_callee(void);
void tst_record(struct fr *f);
#define STR_(x) #x
#define STR(x) STR_(x)
#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
#define NCSI 6
#define NCSF 0
#define NFA 8
#define NIA 6
__asm__(".text\n.globl tst_tramp\n.type tst_tramp,@function\ntst_tramp:\n"
" push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rdi, tst_p(%rip)\n mov %rdi, %rax\n mov %rsp, 61*8(%rax)\n mov 59*8(%rax), %rsp\n"
" movsd 512+0(%rax), %xmm0\n movsd 512+8(%rax), %xmm1\n movsd 512+16(%rax), %xmm2\n movsd 512+24(%rax), %xmm3\n movsd 512+32(%rax), %xmm4\n movsd 512+40(%rax), %xmm5\n movsd 512+48(%rax), %xmm6\n movsd 512+56(%rax), %xmm7\n"
" mov 9*8(%rax), %rbx\n mov 10*8(%rax), %rbp\n mov 11*8(%rax), %r12\n mov 12*8(%rax), %r13\n mov 13*8(%rax), %r14\n mov 14*8(%rax), %r15\n"
" mov 8(%rax), %rdi\n mov 16(%rax), %rsi\n mov 24(%rax), %rdx\n mov 32(%rax), %rcx\n mov 40(%rax), %r8\n mov 48(%rax), %r9\n mov 0(%rax), %r11\n mov $0x1234567812345678, %r10\n mov %r10, %rax\n call *%r11\n"
".globl tst_after\ntst_after:\n.globl tst_after2\ntst_after2:\n mov %rax, %r11\n mov tst_p(%rip), %rax\n mov %r11, 57*8(%rax)\n mov %rdx, 58*8(%rax)\n mov %rsp, 60*8(%rax)\n movsd %xmm0, 512+320(%rax)\n"
" mov %rbx, 33*8(%rax)\n mov %rbp, 34*8(%rax)\n mov %r12, 35*8(%rax)\n mov %r13, 36*8(%rax)\n mov %r14, 37*8(%rax)\n mov %r15, 38*8(%rax)\n mov 61*8(%rax), %rsp\n cld\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
".globl tst_callee\ntst_callee:\n mov %rsp, %r11\n sub $264, %rsp\n and $-16, %rsp\n mov %r11, 248(%rsp)\n"
" mov %rdi, 0(%rsp)\n mov %rsi, 8(%rsp)\n mov %rdx, 16(%rsp)\n mov %rcx, 24(%rsp)\n mov %r8, 32(%rsp)\n mov %r9, 40(%rsp)\n lea 8(%r11), %rax\n mov %rax, 64(%rsp)\n mov (%r11), %rax\n mov %rax, 72(%rsp)\n"
" movsd %xmm0, 128(%rsp)\n movsd %xmm1, 136(%rsp)\n movsd %xmm2, 144(%rsp)\n movsd %xmm3, 152(%rsp)\n movsd %xmm4, 160(%rsp)\n movsd %xmm5, 168(%rsp)\n movsd %xmm6, 176(%rsp)\n movsd %xmm7, 184(%rsp)\n"
" mov %rsp, %rdi\n call tst_record\n mov 80(%rsp), %rax\n movsd 192(%rsp), %xmm0\n mov 248(%rsp), %rsp\n mov $0x5e5e5e5e5e5e5e5e, %rcx\n mov %rcx, %rdx\n mov %rcx, %rsi\n mov %rcx, %rdi\n mov %rcx, %r8\n mov %rcx, %r9\n mov %rcx, %r10\n mov %rcx, %r11\n movq %rcx, %xmm1\n movq %rcx, %xmm2\n movq %rcx, %xmm3\n movq %rcx, %xmm4\n movq %rcx, %xmm5\n movq %rcx, %xmm6\n movq %rcx, %xmm7\n movq %rcx, %xmm8\n movq %rcx, %xmm9\n movq %rcx, %xmm10\n movq %rcx, %xmm11\n movq %rcx, %xmm12\n movq %rcx, %xmm13\n movq %rcx, %xmm14\n movq %rcx, %xmm15\n ret\n");
static int mkstub(unsigned char *p, void *t) { p[0] = 0x49; p[1] = 0xbb; memcpy(p + 2, &t, 8); p[10] = 0x41; p[11] = 0xff; p[12] = 0xe3; return 13; }
#elif (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
#define NCSI 4
#define NCSF 0
#define NFA 0
#define NIA 0
/* result: eax, edx; a floating point result is left in st0 (kind 1, 2) */
__asm__(".text\n.globl tst_tramp\n.type tst_tramp,@function\ntst_tramp:\n"
" push %ebx\n push %ebp\n push %esi\n push %edi\n mov 20(%esp), %eax\n mov %eax, tst_p\n mov %esp, 61*4(%eax)\n mov 59*4(%eax), %esp\n"
" mov 9*4(%eax), %ebx\n mov 10*4(%eax), %ebp\n mov 11*4(%eax), %esi\n mov 12*4(%eax), %edi\n mov (%eax), %eax\n mov $0x12345678, %ecx\n mov %ecx, %edx\n call *%eax\n"
".globl tst_after\ntst_after:\n.globl tst_after2\ntst_after2:\n mov %eax, %ecx\n mov tst_p, %eax\n mov %ecx, 57*4(%eax)\n mov %edx, 58*4(%eax)\n mov %esp, 60*4(%eax)\n mov %ebx, 33*4(%eax)\n mov %ebp, 34*4(%eax)\n mov %esi, 35*4(%eax)\n mov %edi, 36*4(%eax)\n mov 61*4(%eax), %esp\n"
" cld\n cmpl $0, 62*4(%eax)\n je 3f\n cmpl $1, 62*4(%eax)\n je 2f\n fstpl 256+320(%eax)\n jmp 3f\n2: fstps 256+320(%eax)\n3: pop %edi\n pop %esi\n pop %ebp\n pop %ebx\n ret\n"
".globl tst_callee\ntst_callee:\n mov %esp, %ecx\n sub $264, %esp\n and $-16, %esp\n mov %ecx, 252(%esp)\n lea 4(%ecx), %eax\n mov %eax, 32(%esp)\n mov (%ecx), %eax\n mov %eax, 36(%esp)\n lea 16(%esp), %eax\n sub $12, %esp\n lea 12(%esp), %eax\n push %eax\n call tst_record\n add $16, %esp\n"
" cmpl $0, 48(%esp)\n je 3f\n cmpl $1, 48(%esp)\n je 2f\n fldl 128(%esp)\n jmp 3f\n2: flds 128(%esp)\n3: mov 40(%esp), %eax\n mov 252(%esp), %esp\n mov $0x5e5e5e5e, %ecx\n mov %ecx, %edx\n movd %ecx, %xmm0\n pshufd $0, %xmm0, %xmm0\n movaps %xmm0, %xmm1\n movaps %xmm0, %xmm2\n movaps %xmm0, %xmm3\n movaps %xmm0, %xmm4\n movaps %xmm0, %xmm5\n movaps %xmm0, %xmm6\n movaps %xmm0, %xmm7\n ret\n");
static int mkstub(unsigned char *p, void *t) { p[0] = 0xb9; memcpy(p + 1, &t, 4); p[5] = 0xff; p[6] = 0xe1; return 7; }
#elif (defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64)
#define NCSI 11
#define NCSF 8
#define NFA 8
#define NIA 8
#define LDP2(a,b,o) " ldp " a ", " b ", [x16, " o "]\n"
__asm__(".text\n.globl tst_tramp\n.type tst_tramp,%function\ntst_tramp:\n"
" stp x29, x30, [sp, -176]!\n stp x19, x20, [sp, 16]\n stp x21, x22, [sp, 32]\n stp x23, x24, [sp, 48]\n stp x25, x26, [sp, 64]\n stp x27, x28, [sp, 80]\n stp d8, d9, [sp, 96]\n stp d10, d11, [sp, 112]\n stp d12, d13, [sp, 128]\n stp d14, d15, [sp, 144]\n"
" adrp x16, tst_p\n add x16, x16, :lo12:tst_p\n str x0, [x16]\n mov x16, x0\n mov x17, sp\n str x17, [x16, 61*8]\n ldr x17, [x16, 59*8]\n mov sp, x17\n"
" ldr x17, [x16]\n" LDP2("x0","x1","8") LDP2("x2","x3","24") LDP2("x4","x5","40") LDP2("x6","x7","56") LDP2("x19","x20","72") LDP2("x21","x22","88") LDP2("x23","x24","104") LDP2("x25","x26","120") LDP2("x27","x28","136") " ldr x29, [x16, 152]\n"
" add x16, x16, 512\n" LDP2("d0","d1","0") LDP2("d2","d3","16") LDP2("d4","d5","32") LDP2("d6","d7","48") LDP2("d8","d9","64") LDP2("d10","d11","80") LDP2("d12","d13","96") LDP2("d14","d15","112") " blr x17\n"
".globl tst_after\ntst_after:\n.globl tst_after2\ntst_after2:\n adrp x16, tst_p\n add x16, x16, :lo12:tst_p\n ldr x16, [x16]\n stp x0, x1, [x16, 57*8]\n mov x17, sp\n str x17, [x16, 60*8]\n"
" stp x19, x20, [x16, 264]\n stp x21, x22, [x16, 280]\n stp x23, x24, [x16, 296]\n stp x25, x26, [x16, 312]\n stp x27, x28, [x16, 328]\n str x29, [x16, 344]\n ldr x17, [x16, 61*8]\n mov sp, x17\n"
" add x16, x16, 512\n stp d8, d9, [x16, 192]\n stp d10, d11, [x16, 208]\n stp d12, d13, [x16, 224]\n stp d14, d15, [x16, 240]\n str d0, [x16, 320]\n"
" ldp x19, x20, [sp, 16]\n ldp x21, x22, [sp, 32]\n ldp x23, x24, [sp, 48]\n ldp x25, x26, [sp, 64]\n ldp x27, x28, [sp, 80]\n ldp d8, d9, [sp, 96]\n ldp d10, d11, [sp, 112]\n ldp d12, d13, [sp, 128]\n ldp d14, d15, [sp, 144]\n ldp x29, x30, [sp], 176\n ret\n"
".globl tst_callee\ntst_callee:\n mov x16, sp\n and x17, x16, -16\n sub x17, x17, 272\n mov sp, x17\n stp x16, x30, [sp, 240]\n stp x0, x1, [sp]\n stp x2, x3, [sp, 16]\n stp x4, x5, [sp, 32]\n stp x6, x7, [sp, 48]\n stp x16, x30, [sp, 64]\n stp d0, d1, [sp, 128]\n stp d2, d3, [sp, 144]\n stp d4, d5, [sp, 160]\n stp d6, d7, [sp, 176]\n"
" mov x0, sp\n bl tst_record\n ldr x0, [sp, 80]\n ldr d0, [sp, 192]\n ldp x16, x30, [sp, 240]\n mov sp, x16\n mov x1, 0x5e5e\n movk x1, 0x5e5e, lsl 48\n mov x2, x1\n mov x3, x1\n mov x4, x1\n mov x5, x1\n mov x6, x1\n mov x7, x1\n mov x8, x1\n mov x9, x1\n mov x10, x1\n mov x11, x1\n mov x12, x1\n mov x13, x1\n mov x14, x1\n mov x15, x1\n mov x16, x1\n mov x17, x1\n fmov d1, x1\n fmov d2, x1\n fmov d3, x1\n fmov d4, x1\n fmov d5, x1\n fmov d6, x1\n fmov d7, x1\n fmov d16, x1\n fmov d17, x1\n fmov d18, x1\n fmov d19, x1\n fmov d20, x1\n fmov d31, x1\n ret\n");
static int mkstub(unsigned char *p, void *t) { unsigned w[2] = { 0x58000050, 0xd61f0200 }; memcpy(p, w, 8); memcpy(p + 8, &t, 8); return 16; }
#elif (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64) || (defined SLJIT_CONFIG_LOONGARCH_64 && SLJIT_CONFIG_LOONGARCH_64)
#define NFA 8
#define NIA 8
#if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
#define NCSI 12
#define NCSF 12
#define MAC ".macro LDI r, o, b\n ld \\r, \\o(\\b)\n.endm\n.macro STI r, o, b\n sd \\r, \\o(\\b)\n.endm\n.macro LDF r, o, b\n fld f\\r, \\o(\\b)\n.endm\n.macro STF r, o, b\n fsd f\\r, \\o(\\b)\n.endm\n.macro XMV a, b\n mv \\a, \\b\n.endm\n.macro ADI a, b, k\n addi \\a, \\b, \\k\n.endm\n.macro GP r\n la \\r, tst_p\n.endm\n.macro CALLR r\n jalr \\r\n.endm\n.macro CALLF f\n call \\f\n.endm\n.macro RETN\n ret\n.endm\n.macro MVF d, s\n fmv.d.x f\\d, \\s\n.endm\n.macro ALN a, b\n andi \\a, \\b, -16\n.endm\n"
#define CS "s0", "s11"
#define CSL " .irp n,0,1,2,3,4,5,6,7,8,9,10,11\n"
#define CFL " .irp n,8,9,18,19,20,21,22,23,24,25,26,27\n"
#define FA0 "10"
#define CLI "t0,t1,t2,t3,t4,t5,a1,a2,a3,a4,a5,a6,a7"
#define CLF "0,1,2,3,4,5,6,7,11,12,13,14,15,16,17,28,29,30,31"
static int mkstub(unsigned char *p, void *t) { unsigned w[4] = { 0x317, 0x01033303, 0x30067, 0x13 }; memcpy(p, w, 16); memcpy(p + 16, &t, 8); return 24; }
#else
#define NCSI 10
#define NCSF 8
#define MAC ".macro LDI r, o, b\n ld.d $\\r, $\\b, \\o\n.endm\n.macro STI r, o, b\n st.d $\\r, $\\b, \\o\n.endm\n.macro LDF r, o, b\n fld.d $f\\r, $\\b, \\o\n.endm\n.macro STF r, o, b\n fst.d $f\\r, $\\b, \\o\n.endm\n.macro XMV a, b\n or $\\a, $\\b, $zero\n.endm\n.macro ADI a, b, k\n addi.d $\\a, $\\b, \\k\n.endm\n.macro GP r\n la.local $\\r, tst_p\n.endm\n.macro CALLR r\n jirl $ra, $\\r, 0\n.endm\n.macro CALLF f\n bl \\f\n.endm\n.macro RETN\n jr $ra\n.endm\n.macro MVF d, s\n movgr2fr.d $f\\d, $\\s\n.endm\n.macro ALN a, b\n or $\\a, $\\b, $zero\n bstrins.d $\\a, $zero, 3, 0\n.endm\n"
#define CSL " .irp n,0,1,2,3,4,5,6,7,8\n"
#define CFL " .irp n,24,25,26,27,28,29,30,31\n"
#define FA0 "0"
#define CLI "t0,t1,t2,t3,t4,t5,t6,t7,t8,a1,a2,a3,a4,a5,a6,a7"
#define CLF "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23"
static int mkstub(unsigned char *p, void *t) { unsigned w[4] = { 0x1c00000c, 0x28c0418c, 0x4c000180, 0x03400000 }; memcpy(p, w, 16); memcpy(p + 16, &t, 8); return 24; }
#endif
__asm__(".text\n" MAC
".globl tst_tramp\n.type tst_tramp,%function\ntst_tramp:\n ADI sp, sp, -256\n STI ra, 0, sp\n .set o, 8\n" CSL " STI s\\n, o, sp\n .set o, o+8\n .endr\n STI fp, o, sp\n .set o, 112\n" CFL " STF \\n, o, sp\n .set o, o+8\n .endr\n"
" GP t0\n STI a0, 0, t0\n XMV t0, a0\n STI sp, 61*8, t0\n LDI sp, 59*8, t0\n LDI t1, 0, t0\n .set o, 9*8\n" CSL " LDI s\\n, o, t0\n .set o, o+8\n .endr\n"
" LDI fp, 9*8+(" STR(NCSI) "==10)*72, t0\n .set o, 512+64\n" CFL " LDF \\n, o, t0\n .set o, o+8\n .endr\n .set o, 512\n .irp n,0,1,2,3,4,5,6,7\n LDI a\\n, (o-512+8), t0\n .set o, o+8\n .endr\n .set o, 512\n"
#if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
" .irp n,10,11,12,13,14,15,16,17\n"
#else
" .irp n,0,1,2,3,4,5,6,7\n"
#endif
" LDF \\n, o, t0\n .set o, o+8\n .endr\n CALLR t1\n"
".globl tst_after\ntst_after:\n.globl tst_after2\ntst_after2:\n GP t0\n LDI t0, 0, t0\n STI a0, 57*8, t0\n STI a1, 58*8, t0\n STI sp, 60*8, t0\n STF " FA0 ", 512+320, t0\n .set o, 33*8\n" CSL " STI s\\n, o, t0\n .set o, o+8\n .endr\n STI fp, 33*8+(" STR(NCSI) "==10)*72, t0\n .set o, 512+192\n" CFL " STF \\n, o, t0\n .set o, o+8\n .endr\n LDI sp, 61*8, t0\n"
" LDI ra, 0, sp\n .set o, 8\n" CSL " LDI s\\n, o, sp\n .set o, o+8\n .endr\n LDI fp, o, sp\n .set o, 112\n" CFL " LDF \\n, o, sp\n .set o, o+8\n .endr\n ADI sp, sp, 256\n RETN\n"
".globl tst_callee\ntst_callee:\n XMV t0, sp\n ALN sp, sp\n ADI sp, sp, -272\n STI t0, 240, sp\n STI ra, 248, sp\n STI t0, 64, sp\n STI ra, 72, sp\n .set o, 0\n .irp n,0,1,2,3,4,5,6,7\n STI a\\n, o, sp\n .set o, o+8\n .endr\n .set o, 128\n"
#if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
" .irp n,10,11,12,13,14,15,16,17\n"
#else
" .irp n,0,1,2,3,4,5,6,7\n"
#endif
" STF \\n, o, sp\n .set o, o+8\n .endr\n XMV a0, sp\n CALLF tst_record\n LDI a0, 80, sp\n LDF " FA0 ", 192, sp\n LDI ra, 248, sp\n LDI sp, 240, sp\n ADI t0, zero, -1371\n .irp n," CLI "\n ADI \\n, t0, 77\n .endr\n .irp n," CLF "\n MVF \\n, t0\n .endr\n RETN\n");
#else
#define NOTRAMP 1
#define NCSI 0
#define NCSF 0
#define NFA 0
#define NIA 0
void tst_tramp(struct ts *p) { cannot("no trampoline for this target"); } void tst_after(void) {} void tst_after2(void) {} void tst_callee(void) {}
static int mkstub(unsigned char *p, void *t) { cannot("no trampoline"); return 0; }
#endif
static struct fr recs[16]; static unsigned char recstk[16][64]; static int nrec; static struct { int kind; ull v; } srets[16];
static int leaving; static void leave_ok(void) { int i; for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("xmem")) { unsigned char v = *(volatile unsigned char*)(sljit_uw)hx(l->t[1]); if (v != hx(l->t[2])) bad("memory", hx(l->t[1]), v, hx(l->t[2])); } } printf("OK\n"); fflush(stdout); _exit(0); }
void tst_record(struct fr *f) {
  if (leaving) leave_ok();
  if (nrec >= 16) { printf("MISMATCH more calls than specified\n"); fflush(stdout); _exit(42); }
  recs[nrec] = *f; memcpy(recstk[nrec], (void*)f->sp, 64);
  f->kind = srets[nrec].kind; f->ret = f->ret2 = (sljit_uw)0xc1c1c1c1c1c1c1c1ULL; f->fret = 0xdededededededeULL;
  if (srets[nrec].kind == 0) f->ret = (sljit_uw)srets[nrec].v;
  else if (srets[nrec].kind == 2) f->fret = srets[nrec].v;
  else {
#if (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
    f->fret = srets[nrec].v | 0xffffffff00000000ULL;
#elif (defined SLJIT_BIG_ENDIAN && SLJIT_BIG_ENDIAN)
    f->fret = srets[nrec].v << 32;
#else
    f->fret = srets[nrec].v;
#endif
  }
  nrec++; }
static void mapstub(ull a, void *t) { unsigned char *p; ull pg = (ull)sysconf(_SC_PAGESIZE), b = a & ~(pg - 1); if ((sljit_uw)b != b) cannot("address range");
  p = mmap((void*)(sljit_uw)b, 2 * pg, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000, -1, 0); if (p != (void*)(sljit_uw)b) cannot("cannot map the call target");
  int n = mkstub((unsigned char*)(sljit_uw)a, t); __builtin___clear_cache((char*)(sljit_uw)a, (char*)(sljit_uw)a + n); }
static ull skipa[32]; static int nskip; static int is_skip(ull a) { int i; for (i = 0; i < nskip; i++) if (a >= skipa[i] && a < skipa[i] + sizeof(sljit_uw)) return 1; return 0; }
static int abi_setup(void) { int i, on = 0; for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("abi")) on = 1; if (IS("stub")) mapstub(hx(l->t[1]), (void*)tst_callee); if (IS("leave")) { mapstub(hx(l->t[1]), (void*)tst_callee); leaving = 1; } if (IS("retto")) mapstub(hx(l->t[1]), (void*)tst_after2); if (IS("sret")) { int k = atoi(l->t[1]); srets[k].kind = atoi(l->t[2]); srets[k].v = hx(l->t[3]); } if (IS("xra") || IS("xskip") || IS("xmeml2")) skipa[nskip++] = strtoull(l->t[1], 0, 10); }
#ifdef NOTRAMP
  if (on) cannot("no trampoline for this target");
#endif
  return on; }
static ull fval(ull v, int dbl) { if (dbl) return v;
#if (defined SLJIT_BIG_ENDIAN && SLJIT_BIG_ENDIAN)
  return v >> 32;
#else
  return v & 0xffffffffULL;
#endif
}
static void abi_run(void *code) {
  static struct ts t; int i, k; sljit_uw abiw = 64, regfn = 0; size_t above = 4096; static unsigned char *stk; size_t SZ = 3 << 20; sljit_uw sp;
  stk = mmap(0, SZ + above, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (stk == MAP_FAILED) cannot("mmap"); memset(stk, 0xa7, SZ + above); sp = ((sljit_uw)stk + SZ) & ~(sljit_uw)63;
  memset(&t, 0x33, sizeof t); t.code = (sljit_uw)SLJIT_FUNC_ADDR_(code); t.spin = sp; t.pad[0] = 0;
  for (i = 0; i < 24; i++) t.csi[i] = (sljit_uw)(0x1122334455660000ULL * 3 + 0x1000193 * (i + 1)); for (i = 0; i < 16; i++) t.fcsi[i] = 0x4010203040506000ULL + 0x111 * i;
  for (i = 0; i < nl; i++) { struct line *l = &L[i];
    if (IS("ia") && atoi(l->t[1]) < 8) t.ia[atoi(l->t[1])] = (sljit_uw)hx(l->t[2]);
    if (IS("fa") && atoi(l->t[1]) < 8) t.fa[atoi(l->t[1])] = hx(l->t[2]);
    if (IS("sa")) ((unsigned char*)sp)[hx(l->t[1])] = (unsigned char)hx(l->t[2]);
    if (IS("abiw")) abiw = (sljit_uw)hx(l->t[1]); if (IS("regfn")) regfn = 1;
    if (IS("xretf") && !regfn) t.pad[0] = atoi(l->t[1]) + 1; }
  { static unsigned char before[4096]; memcpy(before, (void*)sp, above - 128); tst_tramp(&t);
    if (leaving) bad("the code did not leave to the new target", 0, 0, 0); if (t.spout != sp) bad("stack pointer after the return", 0, t.spout, sp);
    for (k = (int)abiw; k < (int)above - 128; k++) if (((unsigned char*)sp)[k] != before[k]) bad("memory of the caller's frame at sp +", (ull)k, ((unsigned char*)sp)[k], before[k]); }
  for (i = 0; i < NCSI; i++) if (!(regfn && i == 0 && sizeof(sljit_uw) == 4 && NIA == 0)) if (t.cso[i] != t.csi[i]) bad("callee-saved register number", (ull)i, t.cso[i], t.csi[i]);
  for (i = 0; i < NCSF; i++) if (t.fcso[i] != t.fcsi[i]) bad("callee-saved float register number", (ull)i, t.fcso[i], t.fcsi[i]);
  int want = 0;
  for (i = 0; i < nl; i++) { struct line *l = &L[i];
    if (IS("xret")) { sljit_uw m = (sljit_uw)hx(l->t[2]); if ((t.ret ^ (sljit_uw)hx(l->t[1])) & m) bad("result", 0, t.ret, hx(l->t[1])); }
    if (IS("xretf") && !(regfn && NFA == 0)) { if (fval(t.fret, atoi(l->t[1])) != hx(l->t[2])) bad("floating point result", 0, fval(t.fret, atoi(l->t[1])), hx(l->t[2])); }
    if (IS("xra")) { sljit_uw v; memcpy(&v, (void*)(sljit_uw)strtoull(l->t[1], 0, 10), sizeof v); if ((v & ~(sljit_uw)1) != ((sljit_uw)tst_after & ~(sljit_uw)1)) bad("return address", 0, v, (ull)(sljit_uw)tst_after); }
    if (IS("sret")) want++;
    if (IS("xci") || IS("xcf") || IS("xcs") || IS("xcm")) { int n = atoi(l->t[1]); if (n >= nrec) bad("number of calls", 0, (ull)nrec, (ull)n + 1); struct fr *f = &recs[n]; int p = atoi(l->t[2]);
      if (IS("xci")) { sljit_uw m = (sljit_uw)hx(l->t[4]); if ((f->ia[p] ^ (sljit_uw)hx(l->t[3])) & m) bad("call argument register", (ull)p, f->ia[p], hx(l->t[3])); }
      if (IS("xcf")) { ull v = fval(f->fa[p], atoi(l->t[3])); if (v != hx(l->t[4])) bad("call float argument register", (ull)p, v, hx(l->t[4])); }
      if (IS("xcs")) { int o = (int)hx(l->t[2]), z = atoi(l->t[3]); ull v = 0; memcpy(&v, recstk[n] + o, (size_t)z); if (v != hx(l->t[4])) bad("call stack argument at", (ull)o, v, hx(l->t[4])); }
      if (IS("xcm")) { int z = atoi(l->t[3]); ull v = (ull)f->ia[p] & 0xffffffffULL; if (z == 2) v |= (ull)f->ia[p + 1] << 32; if (v != hx(l->t[4])) bad("call float argument in integer registers", (ull)p, v, hx(l->t[4])); } } }
  if (want != nrec) bad("number of calls", 0, (ull)nrec, (ull)want);
  for (i = 0; i < nrec; i++) { sljit_uw al =
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC)
    16;
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X) || (defined SLJIT_32BIT_ARCHITECTURE && SLJIT_32BIT_ARCHITECTURE)
    8;
#else
    16;
#endif
    if (recs[i].sp & (al - 1)) bad("stack alignment at the call", (ull)i, recs[i].sp & (al - 1), 0); } }
