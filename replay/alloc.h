/* Allocation hooks of the replay. Outside the gm modes they are malloc/free and the library's own executable allocator. */
#include <stddef.h>
static int gm; /* 1 code generation, 2 failing allocations, 3 serialization */
void *tst_alloc(size_t n); void tst_release(void *p); void *tst_alloc_exec(size_t n, void *r); int tst_release_exec(void *p);
#define SLJIT_MALLOC(size, d) tst_alloc(size)
#define SLJIT_FREE(ptr, d) tst_release(ptr)
static int tst_want_exec(void);
#define SLJIT_MALLOC_EXEC(size, d) (gm || tst_want_exec() ? tst_alloc_exec(size, 0) : SLJIT_BUILTIN_MALLOC_EXEC(size, d))
#if !(defined SLJIT_CONFIG_X86_64) && !(defined SLJIT_CONFIG_X86_32) && !(defined SLJIT_CONFIG_S390X) && !(defined SLJIT_CONFIG_PPC_32) && !(defined SLJIT_CONFIG_PPC_64)
#define FLUSHED 1
void tst_flush(char *a, char *b);
#define SLJIT_CACHE_FLUSH(from, to) tst_flush((char*)(from), (char*)(to))
#endif
#define SLJIT_FREE_EXEC(ptr, d) do { if (!tst_release_exec(ptr)) SLJIT_BUILTIN_FREE_EXEC(ptr, d); } while (0)
