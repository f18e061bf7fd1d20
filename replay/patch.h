/* Patching of generated code at run time: what is written, and whether the instruction cache was flushed for it */
#ifdef FLUSHED
static struct { char *a, *b; } fls[256]; static int nfl;
void tst_flush(char *a, char *b) { if (nfl < 256) { fls[nfl].a = a; fls[nfl].b = b; nfl++; } __builtin___clear_cache(a, b); }
static void flushed(char *p, size_t n, unsigned char *old) { size_t i; int k; for (i = 0; i < n; i++) { if (old && old[i] == (unsigned char)p[i]) continue; for (k = 0; k < nfl && !(p + i >= fls[k].a && p + i < fls[k].b); k++); if (k == nfl) bad("modified code is not flushed from the instruction cache at code +", (ull)i, 0, 0); } }
#endif
static void patch_code(void *code) {
  sljit_sw eo = sljit_get_executable_offset(C); int i, ic = 0; size_t n = sljit_get_generated_code_size(C); char *base = (char*)SLJIT_FUNC_UADDR(code); static unsigned char old[1 << 20];
#if (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
  base = (char*)((sljit_uw)base & ~(sljit_uw)1);
#endif
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("icache")) ic = 1; }
#ifdef FLUSHED
  if (ic) flushed(base, n, 0);
#endif
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; int p = 1; if (n <= sizeof old) memcpy(old, base, n); else ic = 0;
#ifdef FLUSHED
    nfl = 0;
#endif
    if (IS("pconst")) sljit_set_const(sljit_get_const_addr((struct sljit_const*)H[atoi(l->t[1] + 1)]), (sljit_s32)hx(l->t[2]), (sljit_sw)hx(l->t[3]), eo);
    else if (IS("pjump")) sljit_set_jump_addr(sljit_get_jump_addr((struct sljit_jump*)H[atoi(l->t[1] + 1)]), (sljit_uw)hx(l->t[2]), eo);
    else if (IS("pjumpl")) sljit_set_jump_addr(sljit_get_jump_addr((struct sljit_jump*)H[atoi(l->t[1] + 1)]), sljit_get_label_addr((struct sljit_label*)H[atoi(l->t[2] + 1)]), eo);
    else p = 0;
#ifdef FLUSHED
    if (p && ic) flushed(base, n, old);
#endif
    (void)p; (void)ic; } }
