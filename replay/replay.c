/* Replays one counterexample against the real library: reads a script on stdin, exit 0 = behaves as specified,
   42 = the behaviour differs from the specification, 77 = the script cannot be replayed here. */
#define _GNU_SOURCE
#include "alloc.h"
#include "sljitLir.c"
#include "../engine/shared.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <signal.h>
typedef unsigned long long ull;
static void bad(const char *what, ull a, ull got, ull want) { printf("MISMATCH %s %llx: got %llx, specified %llx\n", what, a, got, want); fflush(stdout); _exit(42); }
static void cannot(const char *what) { printf("NOREPLAY %s\n", what); fflush(stdout); _exit(77); }
#define FN(n) { #n, (void*)n }
static struct { const char *n; void *f; } fns[] = {
  FN(sljit_create_compiler), FN(sljit_free_compiler), FN(sljit_emit_enter), FN(sljit_set_context), FN(sljit_emit_return_void), FN(sljit_emit_return), FN(sljit_emit_return_to), FN(sljit_emit_op0), FN(sljit_emit_op1), FN(sljit_emit_op2), FN(sljit_emit_op2u), FN(sljit_emit_op2r),
  FN(sljit_emit_op2cmpz), FN(sljit_emit_shift_into), FN(sljit_emit_op_src), FN(sljit_emit_op_dst), FN(sljit_emit_fop1), FN(sljit_emit_fop2), FN(sljit_emit_fop2r), FN(sljit_emit_fcopy), FN(sljit_emit_label), FN(sljit_emit_aligned_label), FN(sljit_set_current_flags), FN(sljit_emit_op_custom), FN(tst_filler), FN(tst_robuf), FN(tst_robuf_label), FN(sljit_emit_jump), FN(sljit_emit_call), FN(sljit_emit_cmp), FN(sljit_emit_fcmp), FN(sljit_set_label), FN(sljit_set_target), FN(sljit_emit_ijump), FN(sljit_emit_icall),
  FN(sljit_emit_op_flags), FN(sljit_emit_select), FN(sljit_emit_fselect), FN(sljit_emit_mem), FN(sljit_emit_mem_update), FN(sljit_emit_fmem), FN(sljit_emit_fmem_update), FN(sljit_emit_simd_mov), FN(sljit_emit_simd_replicate), FN(sljit_emit_simd_lane_mov), FN(sljit_emit_simd_lane_replicate), FN(sljit_emit_simd_extend), FN(sljit_emit_simd_sign), FN(sljit_emit_simd_op2), FN(sljit_emit_atomic_load), FN(sljit_emit_atomic_store), FN(sljit_get_local_base), FN(sljit_emit_const), FN(sljit_emit_op_addr), FN(sljit_generate_code), FN(sljit_set_jump_addr), FN(sljit_set_const), FN(sljit_set_compiler_memory_error), FN(sljit_read_only_buffer_start_writing), FN(sljit_read_only_buffer_end_writing), FN(sljit_serialize_compiler), FN(sljit_deserialize_compiler), FN(sljit_free_code), FN(sljit_allocate_stack), FN(sljit_free_stack), FN(sljit_stack_resize), FN(sljit_get_first_label), FN(sljit_get_first_jump), FN(sljit_get_first_const), FN(sljit_get_next_label), FN(sljit_get_next_jump), FN(sljit_get_next_const), FN(sljit_free_unused_memory_exec), {0, 0} };
/* the fixed-size read-only buffer and stack functions used by scripts */
static sljit_sw H[512];
static volatile sljit_uw outv[256]; static volatile double outd[64]; static volatile unsigned char outb[1024];
static sljit_uw inv[128]; static double ind[64];
struct line { char *t[24]; int n; };
static struct line L[8192]; static int nl;
static ull hx(const char *s) { return strtoull(s, 0, 16); }
static sljit_sw arg(const char *s) { return s[0] == 'h' ? H[atoi(s + 1)] : s[0] == 'b' ? (sljit_sw)(outb + atoi(s + 1)) : (sljit_sw)hx(s + 1); }
static sljit_sw callfn(void *f, sljit_sw *a, int n) {
  typedef sljit_sw (*F)(); F g = (F)f; (void)g;
#define W sljit_sw
  switch (n) { case 0: return ((W(*)(void))f)(); case 1: return ((W(*)(W))f)(a[0]); case 2: return ((W(*)(W,W))f)(a[0], a[1]); case 3: return ((W(*)(W,W,W))f)(a[0], a[1], a[2]); case 4: return ((W(*)(W,W,W,W))f)(a[0], a[1], a[2], a[3]); case 5: return ((W(*)(W,W,W,W,W))f)(a[0], a[1], a[2], a[3], a[4]);
  case 6: return ((W(*)(W,W,W,W,W,W))f)(a[0], a[1], a[2], a[3], a[4], a[5]); case 7: return ((W(*)(W,W,W,W,W,W,W))f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); case 8: return ((W(*)(W,W,W,W,W,W,W,W))f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); case 9: return ((W(*)(W,W,W,W,W,W,W,W,W))f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); }
  cannot("argument count"); return 0; }
static sljit_uw label_value(const char *h, const char *abs) { struct sljit_label *l = (struct sljit_label*)H[atoi(h)]; return atoi(abs) ? sljit_get_label_abs_addr(l) : sljit_get_label_addr(l); }
static struct sljit_compiler *C;
static void ck(sljit_s32 r) { if (r) cannot("setup instruction failed"); }
#define IS(k) (!strcmp(l->t[0], k))
static sljit_s32 fr32(int r, int *is32) { int i; for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("freg") && atoi(l->t[1]) == r) { *is32 = atoi(l->t[2]); return 1; } } return 0; }
static void initregs(void) {
  int i, k = 0, q = 0;
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("lmem")) ck(sljit_emit_op1(C, SLJIT_MOV_U8, SLJIT_MEM1(SLJIT_SP), (sljit_sw)hx(l->t[1]), SLJIT_IMM, (sljit_sw)hx(l->t[2]))); }
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("freg")) { ull v = hx(l->t[3]); if (atoi(l->t[2])) { unsigned w = (unsigned)v; memcpy(&ind[q], &w, 4); } else memcpy(&ind[q], &v, 8); ck(sljit_emit_fop1(C, atoi(l->t[2]) ? SLJIT_MOV_F32 : SLJIT_MOV_F64, atoi(l->t[1]), 0, SLJIT_MEM0(), (sljit_sw)&ind[q])); q++; } }
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("reg")) { inv[k] = (sljit_uw)hx(l->t[2]); ck(sljit_emit_op1(C, SLJIT_MOV, atoi(l->t[1]), 0, SLJIT_IMM, (sljit_sw)inv[k])); k++; } } }
static void dumpregs(void) {
  int i, k = 0, q = 0, b = 0;
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("xreg") || IS("xregl")) { ck(sljit_emit_op1(C, SLJIT_MOV, SLJIT_MEM0(), (sljit_sw)&outv[k++], atoi(l->t[1]), 0)); } else if (IS("xfreg")) { ck(sljit_emit_fop1(C, atoi(l->t[2]) ? SLJIT_MOV_F32 : SLJIT_MOV_F64, SLJIT_MEM0(), (sljit_sw)&outd[q++], atoi(l->t[1]), 0)); } }
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("xlmem")) { ck(sljit_emit_op1(C, SLJIT_MOV_U8, SLJIT_R0, 0, SLJIT_MEM1(SLJIT_SP), (sljit_sw)hx(l->t[1]))); ck(sljit_emit_op1(C, SLJIT_MOV_U8, SLJIT_MEM0(), (sljit_sw)&outb[b++], SLJIT_R0, 0)); } } }
static void mapmem(ull a) {
  static ull done[256]; static int nd; ull pg = (ull)sysconf(_SC_PAGESIZE); ull p = a & ~(pg - 1); int i;
  for (i = 0; i < nd; i++) if (done[i] == p) return;
  if ((sljit_uw)p != p) cannot("address range");
  if (mmap((void*)(sljit_uw)p, pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000, -1, 0) != (void*)(sljit_uw)p) cannot("cannot map test memory");
  if (nd < 256) done[nd++] = p; }
#include "kinds.h"
#include <sys/wait.h>
/* several processes increment a shared counter with the atomic operation of the program */
static void race(sljit_s32 op) {
  struct sljit_compiler *c = sljit_create_compiler(0); int p, k, n = 400000; struct sljit_label *l; void *code; sljit_s32 o = op & 0xff; ull mask = o == SLJIT_MOV_U8 ? 0xff : o == SLJIT_MOV_U16 ? 0xffff : 0xffffffffu, v;
  sljit_emit_enter(c, 0, SLJIT_ARGS1V(P), 4, 2, 0); sljit_emit_op1(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_IMM, n); l = sljit_emit_label(c);
  sljit_emit_atomic_load(c, op & ~SLJIT_SET_ATOMIC_STORED, SLJIT_R1, SLJIT_S0); sljit_emit_op2(c, o == SLJIT_MOV32 ? SLJIT_ADD32 : SLJIT_ADD, SLJIT_R2, 0, SLJIT_R1, 0, SLJIT_IMM, 1); sljit_emit_atomic_store(c, op | SLJIT_SET_ATOMIC_STORED, SLJIT_R2, SLJIT_S0, SLJIT_R1);
  sljit_set_label(sljit_emit_jump(c, SLJIT_ATOMIC_NOT_STORED), l); sljit_emit_op2(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_S1, 0, SLJIT_S1, 0, SLJIT_IMM, 1); sljit_set_label(sljit_emit_jump(c, SLJIT_NOT_ZERO), l); sljit_emit_return_void(c);
  code = sljit_generate_code(c, 0, 0); if (!code) return; unsigned *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(m, 0, 64);
  for (p = 0; p < 4; p++) if (!fork()) { alarm(15); ((void (*)(sljit_sw))SLJIT_FUNC_ADDR_(code))((sljit_sw)m); _exit(0); } for (p = 0; p < 4; p++) wait(&k);
  v = *m & mask; if (v != (4ULL * n & mask)) bad("increments lost by concurrent updates", (ull)op, v, 4ULL * n & mask); }
int main(void) { setvbuf(stdout, 0, _IONBF, 0);
  static char buf[1 << 20]; size_t n = fread(buf, 1, sizeof buf - 1, stdin); char *p = buf; buf[n] = 0; int i, k, q, b;
  while (*p && nl < 8192) { char *e = strchr(p, '\n'); struct line *l = &L[nl]; if (e) *e = 0; l->n = 0; for (char *t = strtok(p, " "); t && l->n < 24; t = strtok(0, " ")) l->t[l->n++] = t; if (l->n) nl++; if (!e) break; p = e + 1; }
  alarm(20); kind_setup();
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("mem") || IS("xmem") || IS("xmeml")) { mapmem(hx(l->t[1])); if (IS("xmeml")) mapmem(hx(l->t[1]) + sizeof(sljit_uw) - 1); } }
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("mem")) *(volatile unsigned char*)(sljit_uw)hx(l->t[1]) = (unsigned char)hx(l->t[2]); }
  void *code = 0; sljit_sw a[16];
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; 
    if (kind_line(l)) continue;
    if (!IS("call")) continue;
    const char *fn = l->t[1]; int ret = atoi(l->t[2]); 
    if (!strcmp(fn, "INITREGS")) { initregs(); continue; } if (!strcmp(fn, "DUMPREGS")) { dumpregs(); continue; }
    if (!strcmp(fn, "sljit_emit_fset64")) { ull v = hx(l->t[5] + 1); double d; memcpy(&d, &v, 8); sljit_emit_fset64((void*)arg(l->t[3]), (sljit_s32)arg(l->t[4]), d); continue; }
    if (!strcmp(fn, "sljit_emit_fset32")) { unsigned v = (unsigned)hx(l->t[5] + 1); float d; memcpy(&d, &v, 4); sljit_emit_fset32((void*)arg(l->t[3]), (sljit_s32)arg(l->t[4]), d); continue; }
    for (k = 0; fns[k].n && strcmp(fns[k].n, fn); k++); if (!fns[k].n) cannot(fn);
    for (q = 3; q < l->n; q++) a[q - 3] = arg(l->t[q]);
    sljit_sw r = callfn(fns[k].f, a, l->n - 3); if (ret >= 0) H[ret] = r;
    if (!strcmp(fn, "sljit_create_compiler")) C = (struct sljit_compiler*)r;
    if (!strncmp(fn, "sljit_emit_", 11) && C && sljit_get_compiler_error(C) && !no_error_check) { if (sljit_get_compiler_error(C) == SLJIT_ERR_UNSUPPORTED) cannot("unsupported"); bad(fn, 0, (ull)sljit_get_compiler_error(C), 0); }
    if (!strcmp(fn, "sljit_generate_code")) { code = (void*)r; if (!code) bad("generate_code", 0, 0, 1); } }
#ifdef DUMPCODE
  if (code) { FILE *f = fopen("/tmp/w/code.bin", "wb"); fwrite((void*)SLJIT_FUNC_UADDR(code), 1, sljit_get_generated_code_size(C), f); fclose(f); }
#endif
  if (kind_finish(code)) { printf("OK\n"); return 0; }
  if (!code) cannot("no code");
  if (!kind_run(code)) ((void (*)(void))SLJIT_FUNC_ADDR_(code))();
  for (i = k = q = b = 0; i < nl; i++) { struct line *l = &L[i];
    if (IS("xregl")) { sljit_uw v = outv[k++], w = label_value(l->t[2], l->t[3]) + (sljit_uw)hx(l->t[4]); if (v != w) bad("register", (ull)atoi(l->t[1]), v, w); }
    else if (IS("xmeml")) { sljit_uw v, w = label_value(l->t[2], l->t[3]); memcpy(&v, (void*)(sljit_uw)hx(l->t[1]), sizeof v); if (v != w) bad("memory word", hx(l->t[1]), v, w); }
    else if (IS("xreg")) { sljit_uw v = outv[k++], m = (sljit_uw)hx(l->t[3]); if ((v & m) != ((sljit_uw)hx(l->t[2]) & m)) bad("register", (ull)atoi(l->t[1]), v, hx(l->t[2])); }
    else if (IS("xfreg")) { double d = outd[q++]; ull v = 0; if (atoi(l->t[2])) { unsigned w; memcpy(&w, &d, 4); v = w; } else memcpy(&v, &d, 8); if (v != hx(l->t[3])) bad("float register", (ull)atoi(l->t[1]), v, hx(l->t[3])); }
    else if (IS("xlmem")) { unsigned char v = outb[b++]; if (v != hx(l->t[2])) bad("local", hx(l->t[1]), v, hx(l->t[2])); }
    else if (IS("xmem")) { if (is_skip(hx(l->t[1]))) continue; unsigned char v = *(volatile unsigned char*)(sljit_uw)hx(l->t[1]); if (v != hx(l->t[2])) bad("memory", hx(l->t[1]), v, hx(l->t[2])); } }
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("race")) race((sljit_s32)hx(l->t[1])); }
  printf("OK\n"); return 0; }
