/* Helpers that are both executed symbolically (harness.c) and used by the native replay (replay.c). */
static unsigned char tst_pad[16] = { 0x90, 0x90, 0x90, 0x90, 0x90, 0x90, 0x90, 0x90, 0x90, 0x90, 0x90, 0x90, 0x90, 0x90, 0x90, 0x90 };
/* Emits n bytes of code that is never executed. */
sljit_s32 tst_filler(struct sljit_compiler *compiler, sljit_sw n)
{
  struct sljit_read_only_buffer b;
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
  sljit_s32 unit = 15;
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2) || (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
  sljit_s32 unit = 2; n &= ~1;
#else
  sljit_s32 unit = 4; n &= ~3;
#endif
  if (n <= 0) return 0;
  if (n > 4096) { b.next = 0; b.size = (sljit_uw)n; b.u.label = 0; return sljit_emit_aligned_label(compiler, SLJIT_LABEL_ALIGN_1, &b) ? 0 : compiler->error; }
  while (n > 0) { sljit_s32 k = n < unit ? (sljit_s32)n : unit; sljit_s32 r = sljit_emit_op_custom(compiler, tst_pad, (sljit_u32)k); if (r) return r; n -= k; }
  return 0;
}
static struct sljit_read_only_buffer tst_bufs[4];
/* Emits an aligned label followed by three buffers; returns the label. */
struct sljit_label *tst_robuf(struct sljit_compiler *compiler, sljit_s32 align, sljit_sw s0, sljit_sw s1, sljit_sw s2)
{
  sljit_s32 i;
  for (i = 0; i < 3; i++) { tst_bufs[i].next = i < 2 ? &tst_bufs[i + 1] : 0; tst_bufs[i].u.label = 0; }
  tst_bufs[0].size = (sljit_uw)s0; tst_bufs[1].size = (sljit_uw)s1; tst_bufs[2].size = (sljit_uw)s2;
  return sljit_emit_aligned_label(compiler, align, tst_bufs);
}
struct sljit_label *tst_robuf_label(sljit_sw i) { return tst_bufs[i].u.label; }
#ifdef SLJIT_VERIF_REPLAY
#endif
