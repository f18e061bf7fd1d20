/* Compiled to LLVM bitcode together with the real sljit sources, for every target. */
#include <stddef.h>
#ifndef HZ_REALALLOC
/* the executable allocator is replaced by one that hands out exactly the requested bytes (C09 checks the real ones) */
void *tst_malloc_exec(size_t size); void tst_free_exec(void *p);
#define SLJIT_MALLOC_EXEC(size, d) tst_malloc_exec(size)
#define SLJIT_FREE_EXEC(p, d) tst_free_exec(p)
#endif
#include "sljitLir.c"
#ifdef HZ_REGEX
#include "regexJIT.c"
#endif
#include "shared.h"
#define HZDEF(n)
#ifndef SLJIT_ENTER_USE_VEX
#define SLJIT_ENTER_USE_VEX 0
#define SLJIT_HAS_AVX 1000
#define SLJIT_HAS_AVX2 1001
#endif
#ifndef SLJIT_HAS_LASX
#define SLJIT_HAS_LASX 1002
#endif
#ifndef SLJIT_MASKED_SHIFT
#define SLJIT_MASKED_SHIFT 0
#endif
#ifndef SLJIT_MASKED_SHIFT32
#define SLJIT_MASKED_SHIFT32 0
#endif
#ifndef SLJIT_UNALIGNED
#define SLJIT_UNALIGNED 0
#endif
#ifndef SLJIT_FPU_UNALIGNED
#define SLJIT_FPU_UNALIGNED 0
#endif
const long long hz_consts[] = {
#define X(n) (long long)(SLJIT_##n),
#include "consts.def"
#undef X
  0 };
sljit_s32 hz_R(sljit_s32 i) { return SLJIT_R(i); }
sljit_s32 hz_S(sljit_s32 i) { return SLJIT_S(i); }
sljit_s32 hz_FR(sljit_s32 i) { return SLJIT_FR(i); }
sljit_s32 hz_FS(sljit_s32 i) { return SLJIT_FS(i); }
sljit_s32 hz_VR(sljit_s32 i) { return SLJIT_VR(i); }
sljit_s32 hz_VS(sljit_s32 i) { return SLJIT_VS(i); }
sljit_s32 hz_info(sljit_s32 i) {
  switch (i) {
  case 0: return SLJIT_NUMBER_OF_REGISTERS; case 1: return SLJIT_NUMBER_OF_SAVED_REGISTERS; case 2: return SLJIT_NUMBER_OF_FLOAT_REGISTERS;
  case 3: return SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS; case 4: return SLJIT_NUMBER_OF_VECTOR_REGISTERS; case 5: return SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS;
  case 6: return SLJIT_WORD_SHIFT; case 7: return SLJIT_MASKED_SHIFT; case 8: return SLJIT_MASKED_SHIFT32; case 9: return SLJIT_UNALIGNED; case 10: return SLJIT_FPU_UNALIGNED;
  case 11: return SLJIT_NUMBER_OF_SCRATCH_REGISTERS; case 12: return SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; case 13: return SLJIT_CONV_MAX_FLOAT; case 14: return SLJIT_CONV_MIN_FLOAT; case 15: return SLJIT_CONV_NAN_FLOAT;
  case 16: return SLJIT_LOCALS_OFFSET_BASE;
  case 18: return sizeof(struct sljit_compiler); }
  return 0; }
sljit_uw hz_label_addr(struct sljit_label *l) { return sljit_get_label_addr(l); }
sljit_uw hz_label_abs_addr(struct sljit_label *l) { return sljit_get_label_abs_addr(l); }
sljit_uw hz_jump_addr(struct sljit_jump *j) { return sljit_get_jump_addr(j); }
sljit_uw hz_const_addr(struct sljit_const *c) { return sljit_get_const_addr(c); }
sljit_sw hz_error(struct sljit_compiler *c) { return sljit_get_compiler_error(c); }
sljit_sw hz_exec_offset(struct sljit_compiler *c) { return sljit_get_executable_offset(c); }
sljit_uw hz_code_size(struct sljit_compiler *c) { return sljit_get_generated_code_size(c); }
sljit_s32 hz_MEM1(sljit_s32 r) { return SLJIT_MEM1(r); }
sljit_s32 hz_MEM2(sljit_s32 a, sljit_s32 b) { return SLJIT_MEM2(a, b); }
sljit_s32 hz_MEM0(void) { return SLJIT_MEM0(); }
sljit_s32 hz_REG_PAIR(sljit_s32 a, sljit_s32 b) { return SLJIT_REG_PAIR(a, b); }
sljit_s32 hz_ENTER_KEEP(sljit_s32 n) { return SLJIT_ENTER_KEEP(n); }
sljit_s32 hz_ENTER_FLOAT(sljit_s32 n) { return SLJIT_ENTER_FLOAT(n); }
sljit_s32 hz_ENTER_VECTOR(sljit_s32 n) { return SLJIT_ENTER_VECTOR(n); }
sljit_s32 hz_ARG_VALUE(sljit_s32 t, sljit_s32 i) { return SLJIT_ARG_VALUE(t, i); }
sljit_s32 hz_ARG_RETURN(sljit_s32 t) { return SLJIT_ARG_RETURN(t); }
sljit_uw hz_func_addr(void *f) { return SLJIT_FUNC_UADDR(f); }
void* hz_code_ptr(void *code) { return (void*)SLJIT_FUNC_UADDR(code); }

sljit_uw hz_size(struct sljit_compiler *c) { return c->size; }
void *hz_first(struct sljit_compiler *c, sljit_sw k) { return k == 0 ? (void*)sljit_get_first_label(c) : k == 1 ? (void*)sljit_get_first_jump(c) : (void*)sljit_get_first_const(c); }
void *hz_next(void *p, sljit_sw k) { return k == 0 ? (void*)sljit_get_next_label((struct sljit_label*)p) : k == 1 ? (void*)sljit_get_next_jump((struct sljit_jump*)p) : (void*)sljit_get_next_const((struct sljit_const*)p); }
static sljit_uw hz_ser_sz; sljit_uw hz_ser_size(void) { return hz_ser_sz; }
void *hz_serialize(struct sljit_compiler *c, sljit_s32 opt) { hz_ser_sz = 0x5555; return sljit_serialize_compiler(c, opt, &hz_ser_sz); }
void *hz_generate_buffer(struct sljit_compiler *c, void *buf, sljit_uw size, sljit_sw ofs) { struct sljit_generate_code_buffer b; b.buffer = buf; b.size = size; b.executable_offset = ofs; return sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b); }
void *hz_malloc(sljit_uw n) { return SLJIT_MALLOC(n, NULL); } void hz_free(void *p) { SLJIT_FREE(p, NULL); }
sljit_uw hz_ser_header(void) { return sizeof(struct sljit_serialized_compiler); }
#if defined(HZ_REALALLOC) && (defined SLJIT_UTIL_STACK && SLJIT_UTIL_STACK)
sljit_u8 *hz_stack_field(struct sljit_stack *s, sljit_s32 k) { return k == 0 ? s->start : k == 1 ? s->end : k == 2 ? s->min_start : s->top; }
#endif
sljit_uw hz_frag(struct sljit_compiler *c, sljit_s32 k) { return k == 0 ? (sljit_uw)c->buf : (sljit_uw)(c->buf->memory + c->buf->used_size); }
