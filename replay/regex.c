/* Replays one compile-and-match history against the real regex engine. exit 0 fine, 42 property broken, 77 not replayable.
   Every allocation ends at an inaccessible page, so an access behind it faults. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
typedef unsigned long long ull;
static int nalloc, live, failat = -1, arming, failed;
static void bad(const char *w) { printf("MISMATCH %s\n", w); fflush(stdout); _exit(42); }
static void *guarded(size_t n, size_t al) {
  size_t r = (n + al - 1) & ~(al - 1), p = (r + 4095 + 16) & ~(size_t)4095; char *b = mmap(0, p + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (b == MAP_FAILED) { printf("NOREPLAY mmap\n"); _exit(77); }
  memset(b, 0xa5, p); mprotect(b + p, 4096, PROT_NONE); return b + p - r; }
static int fails(void) { int k; if (!arming) return 0; k = nalloc++; if (k == failat) { failed = 1; return 1; } return 0; }
static void *ptrs[4096]; static size_t lens[4096]; static int np;
static void *rp_malloc(size_t n) { void *p; if (fails()) return 0; p = guarded(n, 8); if (np == 4096) _exit(77); ptrs[np] = p; lens[np++] = n; live++; return p; }
static void rp_free(void *p) { int i; if (!p) return; for (i = 0; i < np; i++) if (ptrs[i] == p) { ptrs[i] = 0; live--; size_t r = (lens[i] + 7) & ~(size_t)7, q = (r + 4095 + 16) & ~(size_t)4095; mprotect((char*)p + r - q, q, PROT_NONE); return; } bad("free of an invalid pointer"); }
static int xlive; static void *tst_malloc_exec(size_t n); static void tst_free_exec(void *p);
#define SLJIT_MALLOC(size, d) rp_malloc(size)
#define SLJIT_FREE(p, d) rp_free(p)
#define SLJIT_MALLOC_EXEC(size, d) tst_malloc_exec(size)
#define SLJIT_FREE_EXEC(p, d) tst_free_exec(p)
#include "sljitLir.c"
#include "regexJIT.c"
static void *tst_malloc_exec(size_t n) { void *p; if (fails()) return 0; p = mmap(0, n, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) _exit(77); xlive++; return p; }
static void tst_free_exec(void *p) { (void)p; xlive--; }
static char line[65536];
static int bytes(char *s, unsigned char *o) { int n = 0; char *t; while ((t = strsep(&s, " \n"))) if (*t) o[n++] = (unsigned char)strtoul(t, 0, 16); return n; }
static void leaks(const char *w) { if (live) { printf("%d blocks leaked\n", live); bad(w); } if (xlive) bad("executable memory leaked"); }
int main(void) {
  static unsigned char buf[65536], pat[4096]; int np_ = 0, flags = 0, err = 0x55, end = 0, id = 0, fin = 0; int fb = 0, fe = 0, fi = 0; struct regex_machine *m = 0; struct regex_match *mt = 0;
  while (fgets(line, sizeof line, stdin)) { char *a = strchr(line, ' '); if (a) *a++ = 0; else { a = line + strlen(line); if (a > line && a[-1] == '\n') a[-1] = 0; }
    if (line[0] == '#') continue;
    if (!strcmp(line, "pattern")) np_ = bytes(a, pat); else if (!strcmp(line, "flags")) flags = (int)strtol(a, 0, 10); else if (!strcmp(line, "fail")) failat = (int)strtoul(a, 0, 16);
    else if (!strcmp(line, "error") || !strcmp(line, "nomatch") || !strcmp(line, "chunk") || !strcmp(line, "result") || !strcmp(line, "reset")) {
      if (!m && !mt) { char *p = guarded(np_, 1); memcpy(p, pat, np_); arming = 1; m = regex_compile(p, np_, flags, &err); arming = 0; }
      if (!strcmp(line, "error")) { int want = (int)strtol(a, 0, 10); if (err != want) { printf("error code %d, expected %d\n", err, want); bad("error code"); } if (!!m != !want) bad("regex_compile result"); if (want) { leaks("regex_compile"); return 0; } 
        continue; }
      if (!mt) { arming = 1; mt = regex_begin_match(m); arming = 0; if (!strcmp(line, "nomatch")) { if (mt) bad("regex_begin_match succeeds"); regex_free_machine(m); leaks("regex_begin_match"); return 0; } if (!mt) bad("regex_begin_match fails"); }
      if (!strcmp(line, "reset")) { regex_reset_match(mt); fin = 0; }
      if (!strcmp(line, "chunk")) { int n = bytes(a, buf); char *p = guarded(n, 1); memcpy(p, buf, n); regex_continue_match(mt, p, n); }
      if (!strcmp(line, "result")) { unsigned f, wb, we, wi; int b; sscanf(a, "%x %x %x %x", &f, &wb, &we, &wi); b = regex_get_result(mt, &end, &id);
        if (b != (int)wb || (f && (end != (int)we || id != (int)wi))) { printf("match %d-%d id %d, expected %d-%d id %d\n", b, end, id, (int)wb, (int)we, (int)wi); bad("result"); }
        if (fin && (b != fb || (b >= 0 && (end != fe || id != fi)))) bad("result changes after the match was finished"); if (!fin && regex_is_match_finished(mt)) { fin = 1; fb = b; fe = end; fi = id; } } } }
  if (!m && !mt) { char *p = guarded(np_, 1); memcpy(p, pat, np_); arming = 1; m = regex_compile(p, np_, flags, &err); arming = 0; if (!m) { leaks("regex_compile"); return 0; } }
  if (!mt) { mt = regex_begin_match(m); if (!mt) bad("regex_begin_match fails"); }
  regex_free_match(mt); regex_free_machine(m); leaks("match"); return 0; }
