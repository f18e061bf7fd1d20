/* Replays one history of the executable allocator or the stack utility against the real code, with the system calls
   replaced by wrappers that can be told to fail and that check what they are given. exit 0 fine, 42 property broken, 77 not replayable */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
typedef unsigned long long ull;
static void bad(const char *w) { printf("MISMATCH %s\n", w); fflush(stdout); _exit(42); }
static void cannot(const char *w) { printf("NOREPLAY %s\n", w); fflush(stdout); _exit(77); }
#define MAXR 64
static struct { char *base; size_t size; int prot, live, fd; } rg[MAXR]; static int nrg, nmaps, sysk, layout, envlen = -1, failedop, mapped, offwx;
static char *blkp[64], *blkx[64]; static size_t blks[64]; static int blkl[64], blkr[64], nblk; static size_t blkd[64];
static char osf[512], osv[512]; static int fdopen_[512], lockd, locks, nallocs; static char *top;
static struct { char *lo, *hi; int prot; } pc[256]; static int npc;
static int failnow(const char *what) { int k = sysk++; if (k < 512 && osf[k]) { failedop = 1; (void)what; return 1; } return 0; }
#if defined(PROTALLOC)
#define GATE 0
#elif defined(WXALLOC)
#define GATE 0
#else
#define GATE 1
#endif
static int gating;
static void gate(int open_) { int i; if (!GATE || !gating) return; for (i = 0; i < nrg; i++) if (rg[i].live) mprotect(rg[i].base, rg[i].size, open_ ? rg[i].prot : PROT_NONE); }
static int rp_lock(pthread_mutex_t *m) { (void)m; if (lockd) bad("lock taken twice"); lockd++; locks++; gate(1); return 0; }
static int rp_unlock(pthread_mutex_t *m) { (void)m; if (!lockd) bad("unlock without lock"); lockd--; gate(0); return 0; }
static void *rp_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) {
  size_t lim = sizeof(void*) == 8 ? (size_t)1 << 36 : (size_t)1 << 22; char *p; int k; if (a || o) bad("mmap with an address");
  if (!n || n > lim) { failedop = 1; return MAP_FAILED; } if (failnow("mmap")) return MAP_FAILED;
  n = (n + 4095) & ~(size_t)4095; k = nmaps++; if (!top) top = (char*)(sizeof(void*) == 8 ? (size_t)0x100000000000ULL : (size_t)0x70000000);
  if (layout == 1 && k) { top -= n; p = top; } else if (layout == 2 && k) p = rg[nrg - 1].base + rg[nrg - 1].size; else p = layout == 1 ? top : (char*)(sizeof(void*) == 8 ? (size_t)(0x100000000000ULL + ((ull)k << 40)) : (size_t)(0x48000000 + (k << 24)));
  if (fd >= 0) { struct stat st; if (fd >= 512 || !fdopen_[fd]) bad("mmap of a file descriptor that is not open"); fstat(fd, &st); if ((size_t)st.st_size < n && ((size_t)st.st_size + 4095) / 4096 * 4096 < n) bad("a mapping is larger than its file"); if (!(flags & MAP_SHARED)) bad("the views of the file are not shared"); }
  if (mmap(p, n, prot, flags | MAP_FIXED | MAP_NORESERVE, fd, 0) != p) cannot("address not available");
  if (nrg == MAXR) cannot("too many mappings"); rg[nrg].base = p; rg[nrg].size = n; rg[nrg].prot = prot; rg[nrg].live = 1; rg[nrg].fd = fd; nrg++; mapped = 1; return p; }
static int rp_munmap(void *a, size_t n) { int i, j; n = (n + 4095) & ~(size_t)4095; for (i = nrg - 1; i >= 0; i--) if (rg[i].live && rg[i].base == (char*)a) { if (rg[i].size != n) bad("munmap does not release exactly one mapping"); for (j = 0; j < nblk; j++) if (blkl[j] && ((blkp[j] >= rg[i].base && blkp[j] < rg[i].base + n) || (blkx[j] >= rg[i].base && blkx[j] < rg[i].base + n))) bad("memory of a live block is unmapped"); rg[i].live = 0; return munmap(a, n); } bad("munmap of an address that is not the start of a mapping"); return -1; }
static int rp_mprotect(void *a, size_t n, int prot) { int i; if ((size_t)a & 4095) bad("mprotect: address is not page aligned"); if (failnow("mprotect")) return -1; n = (n + 4095) & ~(size_t)4095; for (i = 0; i < nrg; i++) if (rg[i].live && (char*)a >= rg[i].base && (char*)a + n <= rg[i].base + rg[i].size) { pc[npc].lo = a; pc[npc].hi = (char*)a + n; pc[npc++].prot = prot; return mprotect(a, n, prot); } bad("mprotect of memory that is not mapped"); return -1; }
static int rp_madvise(void *a, size_t n, int adv) { int i; if ((size_t)a & 4095) bad("madvise: address is not page aligned"); if (!n) return 0; for (i = 0; i < nrg; i++) if (rg[i].live && (char*)a >= rg[i].base && (char*)a + n <= rg[i].base + rg[i].size) break; if (i == nrg) bad("madvise of memory that is not mapped"); if (adv == 4 || adv == 8) madvise(a, n, MADV_DONTNEED); return 0; }
static int mkfd(void) { int fd = memfd_create("x", 0); if (fd < 0 || fd >= 512) cannot("memfd"); fdopen_[fd] = 1; return fd; }
static int rp_open(const char *n, int fl, ...) { (void)n; (void)fl; return failnow("open") ? -1 : mkfd(); }
static int tmpf; static int rp_mkostemp(char *t, int fl) { (void)fl; size_t l = strlen(t); if (l < 7 || strcmp(t + l - 7, "/XXXXXX")) bad("mkostemp template"); if (failnow("open")) return -1; tmpf++; return mkfd(); }
static int rp_unlink(const char *n) { (void)n; tmpf = 0; return failnow("unlink") ? -1 : 0; }
static int rp_close(int fd) { if (fd < 0 || fd >= 512 || !fdopen_[fd]) bad("close of a file descriptor that is not open"); fdopen_[fd] = 0; return close(fd); }
static int rp_ftruncate(int fd, off_t n) { if (fd < 0 || fd >= 512 || !fdopen_[fd]) bad("ftruncate of a file descriptor that is not open"); if (failnow("ftruncate")) return -1; return ftruncate(fd, n); }
static int rp_fchmod(int fd, mode_t m) { (void)fd; (void)m; return 0; }
static char *rp_getenv(const char *n) { static char e[512]; int i; (void)n; if (envlen < 0) return 0; for (i = 0; i < envlen; i++) e[i] = i == 0 || i == envlen - 1 ? '/' : 't'; e[envlen] = 0; return e; }
static int rp_stat(const char *n, struct stat *s) { int k = sysk++; (void)n; if (k < 512 && osf[k]) return -1; memset(s, 0, sizeof *s); s->st_mode = k < 512 && osv[k] ? 0100777 : 0040777; return 0; }
static void *rp_malloc(size_t n) { char *p; if (failnow("malloc")) return 0; if (n > ((size_t)1 << (sizeof(size_t) == 8 ? 36 : 22))) { failedop = 1; return 0; } nallocs++; p = mmap(0, n + 32, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) cannot("memory"); *(size_t*)p = n; return p + 16; }
static void rp_free(void *p) { if (!p) return; nallocs--; munmap((char*)p - 16, *(size_t*)((char*)p - 16) + 32); }
#define mmap rp_mmap
#define munmap rp_munmap
#define mprotect rp_mprotect
#define madvise rp_madvise
#define posix_madvise rp_madvise
#define open rp_open
#define mkostemp rp_mkostemp
#define unlink rp_unlink
#define close rp_close
#define ftruncate rp_ftruncate
#define fchmod rp_fchmod
#define secure_getenv rp_getenv
#define stat(a, b) rp_stat(a, b)
#define pthread_mutex_lock rp_lock
#define pthread_mutex_unlock rp_unlock
#define SLJIT_MALLOC(n, d) rp_malloc(n)
#define SLJIT_FREE(p, d) rp_free(p)
#include "sljitLir.c"
#undef mmap
#undef munmap
#undef mprotect
#undef madvise
#undef close
#undef stat
#undef open
#ifdef TOTALS
#define T_ALLOC sljit_allocated_size
#define T_TOTAL sljit_total_size
#else
#define T_ALLOC 0
#define T_TOTAL 0
#endif
static unsigned char pat(int b, size_t i) { return (unsigned char)(0x31 + b * 37 + i * 101 + (i >> 8)); }
static void fill(int b) { size_t i; for (i = 0; i < blks[b]; i++) blkp[b][i] = (char)pat(b, i); }
static size_t K; static int haveK;
static void after(void) {
  int i, b, n = 0; size_t j, sum = 0, d = 0; if (lockd) bad("returns with the lock held"); for (i = 0; i < 512; i++) if (fdopen_[i]) bad("leaves a file descriptor open"); if (tmpf) bad("leaves a temporary file");
  int g = gating; gate(1); gating = 0;
  for (b = 0; b < nblk; b++) if (blkl[b]) { d += blkd[b]; for (j = 0; j < blks[b]; j++) if ((unsigned char)blkp[b][j] != pat(b, j)) bad("the allocator overwrites a live block"); }
  gating = g; gate(0);
#ifdef TOTALS
  for (i = 0; i < nrg; i++) if (rg[i].live && (rg[i].prot & 2)) { sum += rg[i].size; n++; }
  if (!haveK && n == 1) { K = sum - T_TOTAL; haveK = 1; if (K > 128) bad("the total size does not match the mapped memory"); }
  if ((haveK && T_TOTAL + n * K != sum) || (!n && T_TOTAL)) bad("the total size does not match the mapped memory");
  if (T_ALLOC != d) bad("the allocated size does not match the live blocks");
#endif
  (void)n; (void)sum; (void)d; }
static int inreg(char *p, size_t n, int write) { int i; for (i = 0; i < nrg; i++) if (rg[i].live && (!write || (rg[i].prot & 2)) && p >= rg[i].base && n <= rg[i].size && (size_t)(p - rg[i].base) <= rg[i].size - n) return i; return -1; }
static void do_malloc(size_t size) {
  int i, j, k, old = nrg, lv[MAXR]; size_t a0 = T_ALLOC; int l0 = locks; char *p; for (i = 0; i < nrg; i++) lv[i] = rg[i].live; failedop = mapped = 0;
  p = sljit_malloc_exec(size); (void)l0;
  if (!p) { if (!failedop && !offwx && size <= ((size_t)1 << (sizeof(size_t) == 8 ? 36 : 22))) bad("sljit_malloc_exec returns NULL although no system call failed");
#ifdef WXALLOC
    if (mapped && failedop) offwx = 1;
#endif
    for (i = 0; i < nrg; i++) { if (i < old && rg[i].live != lv[i]) bad("a failed allocation unmaps memory"); if (i >= old && rg[i].live) bad("a failed allocation leaves memory mapped"); } after(); return; }
  k = inreg(p, size, 1); if (k < 0) bad("the block does not fit into its mapping"); if ((size_t)p & 7) bad("the block is not aligned to 8 bytes");
  for (i = 0; i < nblk; i++) if (blkl[i] && p < blkp[i] + blks[i] && blkp[i] < p + size) bad("two live blocks overlap");
  blkp[nblk] = p; blks[nblk] = size; blkl[nblk] = 1; blkr[nblk] = k; blkx[nblk] = p; blkd[nblk] = T_ALLOC - a0;
#ifdef PROTALLOC
  gate(1); blkx[nblk] = p + sljit_exec_offset(p); { int x = -1; for (i = 0; i < nrg; i++) if (rg[i].live && (rg[i].prot & 4) && blkx[nblk] >= rg[i].base && blkx[nblk] + size <= rg[i].base + rg[i].size) x = i; if (x < 0) bad("the block has no executable view"); if (blkx[nblk] - rg[x].base != p - rg[k].base || rg[x].size != rg[k].size) bad("the executable offset does not lead to the same memory in the executable view"); if (rg[x].prot & 2) bad("a view is writable and executable"); }
#elif defined(WXALLOC)
  { size_t q; for (q = 0; q < size; q++) { int pr = rg[k].prot; for (i = 0; i < npc; i++) if (p + q >= pc[i].lo && p + q < pc[i].hi) pr = pc[i].prot; if ((pr & 3) != 3 || (pr & 4)) bad("a new block is not readable and writable"); } }
#else
  if ((rg[k].prot & 7) != 7) bad("the memory of a block is not readable, writable and executable");
#endif
#ifndef WXALLOC
  if (mapped) for (i = 0; i < old; i++) if (lv[i] && rg[i].live && (rg[i].prot & 2)) { size_t need = size + 256; int c; for (c = -1; c < nblk; c++) { char *lo; if (c >= 0 && (!blkl[c] || blkr[c] != i)) continue; lo = c < 0 ? rg[i].base : blkp[c] + blks[c]; if (need > rg[i].size || (size_t)(lo - rg[i].base) > rg[i].size - need) continue; for (j = 0; j < nblk; j++) if (blkl[j] && blkr[j] == i && lo + need > blkp[j] && blkp[j] + blks[j] > lo) break; if (j == nblk) bad("new memory is mapped although a free gap is large enough"); } }
#ifdef TOTALS
  if (blkd[nblk] < size) bad("the allocated size grows by less than the block");
#endif
#endif
  { int g = gating; gate(1); gating = 0; fill(nblk); gating = g; gate(0); } 
#ifdef WXALLOC
  blkd[nblk] = 0;
#endif
  nblk++; after(); }
static void do_free(int b) { blkl[b] = 0; sljit_free_exec(blkx[b]);
#ifdef WXALLOC
  if (rg[blkr[b]].live) bad("a freed block is still mapped");
#endif
  after(); }
static void do_unused(void) { int i, j; sljit_free_unused_memory_exec(); for (i = 0; i < nrg; i++) if (rg[i].live) { for (j = 0; j < nblk; j++) if (blkl[j] && ((blkp[j] >= rg[i].base && blkp[j] < rg[i].base + rg[i].size) || (blkx[j] >= rg[i].base && blkx[j] < rg[i].base + rg[i].size))) break; if (j == nblk) bad("a chunk without live blocks is still mapped after sljit_free_unused_memory_exec"); } after(); }
#ifdef STACKS
static struct sljit_stack *S; static char *smin, *send, *sstart;
static void spat(char *lo, int chk) { char *p; size_t n = send - lo, step = n > (1 << 22) ? n / 512 : 1; for (p = lo; p < send; p += step) { if (chk) { if ((unsigned char)*p != (unsigned char)(1 | ((size_t)(p - smin) * 7 >> 3))) bad("a resize changes the contents of the stack"); } else *p = (char)(1 | ((size_t)(p - smin) * 7 >> 3)); } }
static void do_stack(size_t ss, size_t mx) {
  int ok = ss <= mx && ss >= 1, i; failedop = 0; S = sljit_allocate_stack(ss, mx, 0);
  if (!S) { if (!failedop && ok) bad("sljit_allocate_stack refuses a valid request"); for (i = 0; i < nrg; i++) if (rg[i].live) bad("a failed sljit_allocate_stack leaves memory mapped"); if (nallocs) bad("a failed sljit_allocate_stack leaks memory"); printf("OK\n"); exit(0); }
  if (!ok) bad("sljit_allocate_stack accepts an invalid request"); smin = (char*)S->min_start; send = (char*)S->end; sstart = (char*)S->start;
  if ((char*)S->top != send || (size_t)(send - sstart) != ss || smin > sstart || (size_t)(send - smin) < mx) bad("the limits of a new stack are wrong");
#ifndef SIMPLE
  for (i = 0; i < nrg; i++) if (rg[i].live) break; if (i == nrg || rg[i].base != smin || (size_t)(send - smin) > rg[i].size || (rg[i].prot & 3) != 3) bad("the stack does not lie in its mapping"); if (((size_t)send & 4095) || (size_t)(send - smin) - mx >= 4096) bad("the end of the stack is not page aligned");
#endif
}
static void do_resize(size_t ofs) {
  char *ns = smin + ofs, *r; int ok = ns >= smin && ns < send; spat(sstart, 0); r = (char*)sljit_stack_resize(S, (sljit_u8*)ns);
  if ((char*)S->end != send || (char*)S->min_start != smin || (char*)S->top != send) bad("a resize changes the limits");
  if (!r) { if (ok) bad("a resize inside the limits is refused"); if ((char*)S->start != sstart) bad("a refused resize changes the stack"); spat(sstart, 1); return; }
  if (!ok) bad("a resize outside the limits is accepted"); if (r != ns || (char*)S->start != ns) bad("a resize does not set the new start");
  if (ns > sstart) sstart = ns; { char *o = sstart; size_t n = send - o, step = n > (1 << 22) ? n / 512 : 1; if (step == 1) spat(o, 1); } sstart = ns; }
#endif
int main(void) {
  static char buf[1 << 16]; size_t n = fread(buf, 1, sizeof buf - 1, stdin); char *p = buf, *l[4096]; int nl = 0, i; buf[n] = 0; alarm(20); setvbuf(stdout, 0, _IONBF, 0);
  while (*p && nl < 4096) { char *e = strchr(p, '\n'); l[nl++] = p; if (!e) break; *e = 0; p = e + 1; }
  for (i = 0; i < nl; i++) { int a, b; if (sscanf(l[i], "memworld %d %d", &a, &b) == 2) { layout = a; envlen = b; } else if (sscanf(l[i], "osfail %d", &a) == 1) osf[a] = 1; else if (sscanf(l[i], "osvar %d", &a) == 1) osv[a] = 1; }
  for (i = 0; i < nl; i++) { ull a, b; int k;
    if (!strncmp(l[i], "malloc ", 7)) { sscanf(l[i] + 7, "%llx", &a); gating = 1; gate(0); do_malloc((size_t)a); } else if (sscanf(l[i], "free %d", &k) == 1 && !strncmp(l[i], "free ", 5)) { if (k >= nblk || !blkl[k]) cannot("no such block"); do_free(k); } else if (!strcmp(l[i], "unused")) do_unused();
#ifdef STACKS
    else if (sscanf(l[i], "stack_alloc %llx %llx", &a, &b) == 2) do_stack((size_t)a, (size_t)b); else if (sscanf(l[i], "stack_resize %llx", &a) == 1) do_resize((size_t)a); else if (!strcmp(l[i], "stack_free")) { sljit_free_stack(S, 0); for (k = 0; k < nrg; k++) if (rg[k].live) bad("sljit_free_stack leaves memory mapped"); if (nallocs) bad("sljit_free_stack leaks memory"); }
#endif
  }
  printf("OK\n"); return 0; }
