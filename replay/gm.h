/* Native counterpart of engine/gm.cpp: the same checks of the compiler itself, with guard pages behind every block. */
#include <sys/wait.h>
#define GPG 4096u
static struct { void *p; size_t n; unsigned char *map; size_t len; } blk[4096]; static int nblk, nlive;
static sljit_uw exec_at; static unsigned char *exec_p; static size_t exec_n; static int exec_fill = 0xa5;
static int tst_want_exec(void) { return exec_at != 0; }
static int fail_at = -1, fail_all, n_alloc, fired, counting;
static int g_cut = -1, g_twice, g_keep, g_hdr, g_dfail = -1, g_trunc = -1, g_tail = -1; static ull g_hdrv, g_t, g_c; static int g_buf; static ull g_bufsize;
static int failing_now(void) { int i; if (!counting) return 0; i = n_alloc++; if (fired) return fail_all; if (i == fail_at) { fired = 1; return 1; } return 0; }
void *tst_alloc(size_t n) {
  size_t len = (n + 16 + GPG - 1) / GPG * GPG; unsigned char *m, *p; int i;
  if (!gm) return malloc(n);
  if (failing_now()) return 0;
  m = (unsigned char*)mmap(0, len + GPG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) cannot("mmap");
  memset(m, 0xcd, len); mprotect(m + len, GPG, PROT_NONE); p = m + ((len - n) & ~(size_t)7);
  for (i = 0; i < nblk && blk[i].p; i++); if (i == 4096) cannot("blocks"); if (i == nblk) nblk++;
  blk[i].p = p; blk[i].n = n; blk[i].map = m; blk[i].len = len; nlive++; return p; }
void tst_release(void *p) {
  int i; unsigned char *q;
  if (!gm) { free(p); return; }
  if (!p) return;
  for (i = 0; i < nblk && blk[i].p != p; i++); if (i == nblk) bad("free of a block that is not allocated", (ull)(sljit_uw)p, 0, 0);
  for (q = blk[i].map; q < (unsigned char*)p; q++) if (*q != 0xcd) bad("write before an allocated block", (ull)(sljit_uw)p, 0, 0);
  for (q = (unsigned char*)p + blk[i].n; q < blk[i].map + blk[i].len; q++) if (*q != 0xcd) bad("write after an allocated block", (ull)(sljit_uw)p, 0, 0);
  munmap(blk[i].map, blk[i].len + GPG); blk[i].p = 0; nlive--; }
void *tst_alloc_exec(size_t n, void *r) {
  static int mapped; size_t len; (void)r;
  if (failing_now()) return 0;
  if (exec_p) cannot("second executable block");
  len = (n + 2 * GPG + GPG - 1) / GPG * GPG + GPG; if (len < (4u << 20)) len = 4u << 20;
  if (!mapped) { sljit_uw a = exec_at & ~(sljit_uw)(GPG - 1); void *m = mmap((void*)a, len, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000, -1, 0); if (m != (void*)a) cannot("cannot map the executable block"); mapped = 1; }
  exec_p = (unsigned char*)exec_at; exec_n = n; memset(exec_p, exec_fill, n + 4096); return exec_p; }
static void exec_check(void) { size_t i; for (i = exec_n; i < exec_n + 4096; i++) if (exec_p[i] != exec_fill) bad("write after the code block, offset", (ull)i, exec_n, 0); }
int tst_release_exec(void *p) { if (!gm) return exec_at != 0; if (p != (void*)exec_p || !p) bad("release of an executable block that is not allocated", (ull)(sljit_uw)p, 0, 0); exec_check(); exec_p = 0; return 1; }
static void leak(const char *w) { if (nlive || exec_p) { int i; for (i = 0; i < nblk; i++) if (blk[i].p) printf("block of %u bytes\n", (unsigned)blk[i].n); bad(w, (ull)nlive, exec_p != 0, 0); } }
static void fault(int s) { printf("MISMATCH signal %d\n", s); fflush(stdout); _exit(42); }
static int r_kind(const char *f) { if (!strcmp(f, "sljit_emit_label") || !strcmp(f, "sljit_emit_aligned_label") || !strcmp(f, "tst_robuf")) return 0; if (!strcmp(f, "sljit_emit_jump") || !strcmp(f, "sljit_emit_call") || !strcmp(f, "sljit_emit_cmp") || !strcmp(f, "sljit_emit_fcmp") || !strcmp(f, "sljit_emit_op2cmpz") || !strcmp(f, "sljit_emit_op_addr")) return 1; return strcmp(f, "sljit_emit_const") ? -1 : 2; }
static int is_void(const char *f) { return !strcmp(f, "sljit_set_label") || !strcmp(f, "sljit_set_target") || !strcmp(f, "sljit_set_current_flags") || !strcmp(f, "tst_robuf_label") || !strcmp(f, "sljit_free_compiler"); }
static sljit_sw do_call(struct line *l) {
  sljit_sw a[16]; int k, q; const char *fn = l->t[1];
  if (!strcmp(fn, "sljit_emit_fset64")) { ull v = hx(l->t[5] + 1); double d; memcpy(&d, &v, 8); return sljit_emit_fset64((void*)arg(l->t[3]), (sljit_s32)arg(l->t[4]), d); }
  if (!strcmp(fn, "sljit_emit_fset32")) { unsigned v = (unsigned)hx(l->t[5] + 1); float d; memcpy(&d, &v, 4); return sljit_emit_fset32((void*)arg(l->t[3]), (sljit_s32)arg(l->t[4]), d); }
  for (k = 0; fns[k].n && strcmp(fns[k].n, fn); k++); if (!fns[k].n) cannot(fn);
  for (q = 3; q < l->n; q++) a[q - 3] = arg(l->t[q]);
  return callfn(fns[k].f, a, l->n - 3); }
static sljit_s32 g_err; static int cal; static sljit_uw g_size0;
/* emits one call; object results go to H[] */
static void gm_emit(struct line *l, int check) {
  const char *fn = l->t[1]; int ret = atoi(l->t[2]), was, k; sljit_sw r; struct sljit_compiler *c = C; sljit_s32 e;
  if (!strcmp(fn, "INITREGS") || !strcmp(fn, "DUMPREGS")) return;
  was = fired; if (c) g_size0 = c->size;
  if (fired && !strcmp(fn, "tst_robuf_label")) { if (ret >= 0) H[ret] = 0; return; }
  if (!strcmp(fn, "sljit_set_compiler_memory_error")) fired = 1;
  r = do_call(l); k = r_kind(fn);
  if (!strcmp(fn, "sljit_create_compiler")) { C = c = (struct sljit_compiler*)r; H[ret] = r; if (fired) { if (r) bad("sljit_create_compiler succeeded although an allocation failed", 0, 0, 0); leak("leak after sljit_create_compiler failed"); printf("OK\n"); exit(0); } if (!r) bad("sljit_create_compiler failed", 0, 0, 0); return; }
  if (!strcmp(fn, "sljit_set_compiler_memory_error")) { g_err = sljit_get_compiler_error(c); if (g_err != SLJIT_ERR_ALLOC_FAILED) bad("memory error not set", 0, (ull)g_err, 0); return; }
  e = sljit_get_compiler_error(c);
  if (fired) {
    if (!was) g_err = e;
    if (!e) bad("an allocation failed but the compiler has no error", 0, 0, 0);
    if (e != g_err) bad("the error code changed", 0, (ull)e, (ull)g_err);
    if (e != SLJIT_ERR_ALLOC_FAILED) bad("allocation failure reported as", 0, (ull)e, SLJIT_ERR_ALLOC_FAILED);
    if (!is_void(fn) && !(!strcmp(fn, "tst_filler") && arg(l->t[4]) <= 0)) { if (k >= 0 && r) bad("a failed compiler returned an object", 0, (ull)r, 0); if (k < 0 && (sljit_s32)r != g_err) bad("a failed compiler returned", 0, (ull)(sljit_s32)r, (ull)g_err); }
    if (ret >= 0) H[ret] = 0; return; }
  if (ret >= 0) H[ret] = r;
  if (k < 0 && !is_void(fn) && strncmp(fn, "sljit_emit_", 11) == 0 && (sljit_s32)r == SLJIT_ERR_UNSUPPORTED) { if (e) bad("an unsupported request put the compiler into an error state", 0, (ull)e, 0); if (c->size != g_size0) bad("an unsupported request emitted code", 0, c->size, g_size0); printf("OK unsupported\n"); exit(0); }
  if (check && e) bad(fn, 0, (ull)e, 0); }
static void inside(sljit_uw a, sljit_uw lo, sljit_uw n, int end, const char *w) { if (a < lo || a > lo + n || (!end && a == lo + n)) bad(w, a, lo, lo + n); }
static void gm_calls(int from, int to, int check) { int i, k = 0; for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (!IS("call")) continue; if (k >= from && k < to) gm_emit(l, check); k++; } }
static int gm_count(void) { int i, k = 0; for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("call")) k++; } return k; }
/* A call that writes more than it reserved: place its record at the end of a buffer fragment, where the write leaves the block (guard page). */
static void gm_tail(void) {
  int p, par, st; size_t cap = BUF_SIZE - SLJIT_OFFSETOF(struct sljit_memory_fragment, memory);
  for (p = 1; p < 100; p++) for (par = 0; par < 2; par++) { pid_t pid; fflush(stdout); pid = fork();
    if (pid == 0) { struct sljit_memory_fragment *f; sljit_uw u;
      gm_calls(0, g_tail, 1); if (par) sljit_emit_op1(C, SLJIT_MOV32, SLJIT_R0, 0, SLJIT_R1, 0);
      f = C->buf; do { u = C->buf->used_size; if (u + (u & 1 ? 2 : 2) > cap - (size_t)p) break; sljit_emit_op0(C, SLJIT_NOP); } while (C->buf == f && C->buf->used_size > u);
      gm_calls(g_tail, 1 << 30, 0); sljit_free_compiler(C); _exit(0); }
    if (waitpid(pid, &st, 0) != pid) cannot("fork"); if (!WIFEXITED(st) || WEXITSTATUS(st) == 42) { printf("MISMATCH write past the end of an instruction buffer fragment (%d bytes left)\n", p); exit(42); } } }
static unsigned char seen_a[1 << 22];
static void gm_gen(void) {
  int i, q, pf[2], holes = 0; void *code; sljit_uw lo, n, base, size; unsigned char *b = 0; sljit_sw again; sljit_uw done[256]; int nd = 0;
  struct sljit_generate_code_buffer gb;
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("call") && (!strcmp(l->t[1], "tst_robuf") || !strcmp(l->t[1], "sljit_emit_aligned_label") || !strcmp(l->t[1], "tst_filler"))) holes = 1; }
#if (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X) || (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
  holes = 1;
#endif
  pid_t child = 0; 
  if (!g_buf && !holes) { if (pipe(pf)) cannot("pipe"); child = fork(); if (child == 0) exec_fill = 0x5a; }
  gm_calls(0, 1 << 30, 1);
  if (g_buf) { size_t cap = 16384; b = (unsigned char*)tst_alloc(cap); memset(b, 0xa5, cap); gb.buffer = b; gb.size = (sljit_uw)g_bufsize; gb.executable_offset = 0; code = sljit_generate_code(C, SLJIT_GENERATE_CODE_BUFFER, &gb);
    if (!code) { sljit_s32 e = sljit_get_compiler_error(C); if (e != SLJIT_ERR_EX_ALLOC_FAILED && e != SLJIT_ERR_ALLOC_FAILED) bad("error for a small buffer", 0, (ull)e, 0); for (i = 0; i < (int)cap; i++) if (b[i] != 0xa5) bad("a buffer reported as too small was written", (ull)i, 0, 0); sljit_free_compiler(C); tst_release(b); leak("leak"); return; }
    for (i = (int)g_bufsize; i < (int)cap; i++) if (b[i] != 0xa5) bad("write past the given buffer", (ull)i, g_bufsize, 0);
    base = (sljit_uw)b; size = (sljit_uw)g_bufsize; }
  else { code = sljit_generate_code(C, 0, NULL); if (!code) bad("sljit_generate_code failed", 0, (ull)sljit_get_compiler_error(C), 0); base = (sljit_uw)exec_p; size = exec_n; exec_check(); }
  lo = SLJIT_FUNC_UADDR(code) & ~(sljit_uw)1; n = sljit_get_generated_code_size(C); if (lo < base || lo + n > base + size) bad("the reported code is not inside its block", lo, n, size);
  if (!g_buf && !holes) {
    if (child == 0) { sljit_uw w = 0; (void)!write(pf[1], &n, sizeof n); while (w < n) { ssize_t k = write(pf[1], (char*)lo + w, n - w); if (k <= 0) break; w += (sljit_uw)k; } _exit(0); }
    close(pf[1]); { sljit_uw m = 0, w = 0; if (read(pf[0], &m, sizeof m) != (ssize_t)sizeof m || m > sizeof seen_a) m = 0; while (w < m) { ssize_t k = read(pf[0], seen_a + w, m - w); if (k <= 0) break; w += (sljit_uw)k; } if (m == n) for (w = 0; w < n; w++) if (seen_a[w] == 0x5a && ((unsigned char*)lo)[w] == 0xa5) bad("a byte of the generated code was never written", w, n, 0); }
    waitpid(child, 0, 0); }
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; int k, h; sljit_uw a; if (!IS("call")) continue; k = r_kind(l->t[1]); h = atoi(l->t[2]); if (h < 0 || !H[h] || k < 0) continue;
    if (k == 0 && strcmp(l->t[1], "tst_robuf")) inside(sljit_get_label_abs_addr((struct sljit_label*)H[h]), lo, n, 1, "label outside the code");
    if (k == 1) { if (!strcmp(l->t[1], "sljit_emit_op_addr") || !(arg(l->t[4]) & SLJIT_REWRITABLE_JUMP)) continue; a = sljit_get_jump_addr((struct sljit_jump*)H[h]); inside(a, lo, n, 0, "jump outside the code"); for (q = 0; q < nd && done[q] != a; q++); if (q == nd && nd < 256) { done[nd++] = a; sljit_set_jump_addr(a, (sljit_uw)g_t, 0); } }
    if (k == 2) { a = sljit_get_const_addr((struct sljit_const*)H[h]); inside(a, lo, n, 0, "constant outside the code"); for (q = 0; q < nd && done[q] != a; q++); if (q == nd && nd < 256) { done[nd++] = a; sljit_set_const(a, (sljit_s32)arg(l->t[4]), (sljit_sw)g_c, 0); } } }
  if (!g_buf) exec_check();
  again = (sljit_sw)sljit_generate_code(C, 0, NULL); if (again) bad("a second sljit_generate_code returned code", 0, 0, 0);
  if (sljit_emit_op0(C, SLJIT_NOP) != SLJIT_ERR_COMPILED) bad("sljit_emit_op0 after sljit_generate_code", 0, 0, SLJIT_ERR_COMPILED);
  if (sljit_emit_label(C) || sljit_emit_jump(C, SLJIT_JUMP)) bad("object returned after sljit_generate_code", 0, 0, 0);
  if (g_buf) tst_release(b); else sljit_free_code(code, NULL); sljit_free_compiler(C); C = 0; leak("leak after sljit_free_compiler"); }
static void gm_fail(void) {
  void *code; int was; sljit_s32 e, e2; struct sljit_compiler *c;
  counting = 1; gm_calls(0, 1 << 30, 1); c = C; was = fired;
  code = sljit_generate_code(c, 0, NULL); e = sljit_get_compiler_error(c);
  if (!fired) { if (!code) bad("sljit_generate_code failed", 0, (ull)e, 0); return; }
  if (code) bad("sljit_generate_code returned code although a memory allocation failed", 0, 0, 0);
  if (was && e != g_err) bad("sljit_generate_code changed the error", 0, (ull)e, (ull)g_err);
  if (!was && e != SLJIT_ERR_EX_ALLOC_FAILED && e != SLJIT_ERR_ALLOC_FAILED) bad("an allocation failed in sljit_generate_code but the error is", 0, (ull)e, 0);
  counting = 0;
  if (sljit_generate_code(c, 0, NULL)) bad("sljit_generate_code succeeded on a compiler that had failed", 0, 0, 0);
  e2 = sljit_emit_op0(c, SLJIT_NOP); if (e2 != e) bad("sljit_emit_op0 after the failure", 0, (ull)e2, (ull)e);
  if (sljit_emit_label(c)) bad("label after the failure", 0, 0, 0);
  sljit_free_compiler(c); leak("leak after the failed compiler is freed"); }
struct g1 { sljit_uw lo, n, na, a[1024]; unsigned char *b; };
static void gm_code(struct g1 *g) {
  void *code = sljit_generate_code(C, 0, NULL); int i; if (!code) bad("sljit_generate_code failed", 0, (ull)sljit_get_compiler_error(C), 0);
  g->lo = SLJIT_FUNC_UADDR(code); g->n = sljit_get_generated_code_size(C); g->b = (unsigned char*)malloc(g->n + 1); memcpy(g->b, (void*)(g->lo & ~(sljit_uw)1), g->n); g->na = 0;
  for (i = 0; i < nl; i++) { struct line *l = &L[i]; int k, h; if (!IS("call")) continue; k = r_kind(l->t[1]); h = atoi(l->t[2]); if (h < 0 || !H[h] || g->na >= 1024) continue;
    if (k == 0 || !strcmp(l->t[1], "tst_robuf_label")) g->a[g->na++] = sljit_get_label_addr((struct sljit_label*)H[h]); else if (k == 1) g->a[g->na++] = sljit_get_jump_addr((struct sljit_jump*)H[h]); else if (k == 2) g->a[g->na++] = sljit_get_const_addr((struct sljit_const*)H[h]); }
  sljit_free_code(code, NULL); sljit_free_compiler(C); C = 0; leak("leak after sljit_free_compiler"); }
static int lst(struct sljit_compiler *c, int k, void **v) { int n = 0; void *p = k == 0 ? (void*)sljit_get_first_label(c) : k == 1 ? (void*)sljit_get_first_jump(c) : (void*)sljit_get_first_const(c);
  while (p && n < 2048) { v[n++] = p; p = k == 0 ? (void*)sljit_get_next_label((struct sljit_label*)p) : k == 1 ? (void*)sljit_get_next_jump((struct sljit_jump*)p) : (void*)sljit_get_next_const((struct sljit_const*)p); } return n; }
static void gm_ser(void) {
  static struct g1 a, b; static void *o[3][2048], *w[3][2048]; int no[3], nw[3], round, k, i, j, m = gm_count(); sljit_uw x;
  gm_calls(0, m, 1); gm_code(&a); for (i = 0; i < 512; i++) H[i] = 0;
  gm_calls(0, g_cut, 1);
  for (round = 0; round <= g_twice; round++) {
    sljit_uw sz = 0x5555; sljit_uw *buf; struct sljit_compiler *d; unsigned char *nb;
    for (k = 0; k < 3; k++) no[k] = lst(C, k, o[k]);
    buf = sljit_serialize_compiler(C, 0, &sz); if (!buf) bad("sljit_serialize_compiler failed", 0, 0, 0); if (sz % sizeof(sljit_uw)) bad("size of the serialized buffer", 0, sz, 0);
    if (round == 0 && g_keep) { tst_release(buf); continue; }
    if (round == 0 && g_trunc >= 0) { nb = (unsigned char*)tst_alloc((size_t)g_trunc * sizeof(sljit_uw)); memcpy(nb, buf, (size_t)g_trunc * sizeof(sljit_uw)); sljit_free_compiler(C); tst_release(buf); if (sljit_deserialize_compiler((sljit_uw*)nb, (sljit_uw)g_trunc * sizeof(sljit_uw), 0, NULL)) bad("a truncated buffer is accepted", (ull)g_trunc, sz, 0); tst_release(nb); leak("leak after a truncated buffer is refused"); return; }
    if (round == 0 && g_hdr) { unsigned s = (unsigned)g_hdrv; unsigned short v = (unsigned short)(g_hdrv >> 32); memcpy(buf, &s, 4); memcpy((char*)buf + 4, &v, 2); sljit_free_compiler(C); if (sljit_deserialize_compiler(buf, sz, 0, NULL)) bad("a foreign buffer is accepted", 0, 0, 0); tst_release(buf); leak("leak after a foreign buffer is refused"); return; }
    sljit_free_compiler(C); nb = (unsigned char*)tst_alloc(sz); memcpy(nb, buf, sz); tst_release(buf);
    if (round == 0 && g_dfail >= 0) { counting = 1; n_alloc = 0; fail_at = g_dfail; }
    d = sljit_deserialize_compiler((sljit_uw*)nb, sz, 0, NULL); counting = 0;
    if (fired) { if (d) bad("sljit_deserialize_compiler succeeded although an allocation failed", 0, 0, 0); tst_release(nb); leak("leak after deserialization ran out of memory"); return; }
    if (!d) bad("sljit_deserialize_compiler refuses a valid buffer", 0, 0, 0); memset(nb, 0xee, sz); tst_release(nb);
    for (k = 0; k < 3; k++) { nw[k] = lst(d, k, w[k]); if (nw[k] != no[k]) bad("number of labels, jumps or constants", (ull)k, (ull)nw[k], (ull)no[k]); }
    for (i = 0; i < 512; i++) { if (!H[i]) continue; if (H[i] == (sljit_sw)C) { H[i] = (sljit_sw)d; continue; } for (k = 0; k < 3; k++) { for (j = 0; j < no[k] && o[k][j] != (void*)H[i]; j++); if (j < no[k]) { H[i] = (sljit_sw)w[k][j]; break; } } if (k == 3) bad("an object is not enumerated", (ull)i, 0, 0); }
    C = d; }
  gm_calls(g_cut, m, 1); gm_code(&b);
  if (a.n != b.n) bad("code size", 0, b.n, a.n); if (a.lo != b.lo) cannot("addresses differ");
  for (x = 0; x < a.na && x < b.na; x++) if (a.a[x] != b.a[x]) bad("address of a label, jump or constant", x, b.a[x], a.a[x]);
  for (x = 0; x < a.n; x++) if (a.b[x] != b.b[x] && !(a.b[x] == 0xa5 && b.b[x] == 0xa5)) bad("code byte", x, b.b[x], a.b[x]); }
static int gm_line(struct line *l) {
  int i;
  if (IS("gm")) { gm = atoi(l->t[1]); no_error_check = 1; return 1; }
  if (IS("gmhow")) { for (i = 1; i < l->n; i++) { const char *t = l->t[i]; if (!strcmp(t, "failat")) fail_at = atoi(l->t[++i]); else if (!strcmp(t, "all")) fail_all = 1; else if (!strcmp(t, "twice")) g_twice = 1; else if (!strcmp(t, "keep")) g_keep = 1; else if (!strcmp(t, "hdr")) g_hdr = 1; else if (!strcmp(t, "dfail")) g_dfail = atoi(l->t[++i]); else if (!strcmp(t, "cut")) g_cut = atoi(l->t[++i]); else if (!strcmp(t, "trunc")) g_trunc = atoi(l->t[++i]); } return 1; }
  if (IS("execat")) { exec_at = (sljit_uw)hx(l->t[1]); return 1; }
  if (IS("gmtail")) { g_tail = atoi(l->t[1]); return 1; }
  if (IS("hdr")) { g_hdrv = hx(l->t[1]); return 1; }
  if (IS("gmt")) { g_t = hx(l->t[1]); g_c = hx(l->t[2]); return 1; }
  if (IS("gmbuf")) { g_buf = 1; g_bufsize = hx(l->t[1]); return 1; }
  return gm && IS("call"); }
static int gm_finish(void) {
  if (!gm) return 0;
  signal(SIGSEGV, fault); signal(SIGBUS, fault); signal(SIGABRT, fault);
  if (gm == 1 && g_tail >= 0) gm_tail(); else if (gm == 1) gm_gen(); else if (gm == 2) gm_fail(); else gm_ser();
  return 1; }
