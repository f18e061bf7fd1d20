static int no_error_check;
#define SLJIT_FUNC_ADDR_(c) SLJIT_FUNC_UADDR(c)
#include "tramp.h"
#include "gm.h"
#include "patch.h"
static int kind_line(struct line *l) { return gm_line(l); }
static void kind_setup(void) { int i; for (i = 0; i < nl; i++) { struct line *l = &L[i]; if (IS("execat")) exec_at = hx(l->t[1]); } }
/* runs the code; 0: run it as a plain function */
static int kind_run(void *code) { patch_code(code); if (abi_setup()) { abi_run(code); return 1; } return 0; }
static int kind_finish(void *code) { (void)code; return gm_finish(); }
