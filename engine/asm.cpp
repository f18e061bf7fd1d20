#include "tasks.h"
// results of CPU feature probes (inline assembly in the library); the feature set is chosen by the variant of the configuration
bool archAsm(Engine* E, const std::string& nm, const std::vector<V>& A, V& r) {
  if (nm.compare(0, 4, "asm:")) return false;
  std::string s = nm.substr(4); bool x86 = E->archName.compare(0, 3, "x86") == 0; bool old = E->archName.find("+old") != std::string::npos, noavx = E->archName.find("+noavx") != std::string::npos;
  auto has = [&](const char* p) { return s.find(p) != std::string::npos; };
  if (x86 && has("cpuid")) { // inputs: leaf, subleaf
    u32 leaf = (u32)E->concretize(A[0]), a = 0, b = 0, c = 0, d = 0;
    if (leaf == 0) a = 7; else if (leaf == 0x80000000) a = 0x80000001; else if (leaf == 7) b = old ? 0 : noavx ? 8 : 0x28; else if (leaf == 1) { d = 1 << 15 | 1 << 26 | (old && E->pw == 32 ? -(1 << 15) : 0); d = 1 << 26 | (old && E->pw == 32 ? 0 : 1 << 15); c = old ? 0 : noavx ? 1 << 19 : 1 << 19 | 1 << 27 | 1 << 28; } else if (leaf == 0x80000001) c = old ? 0 : 0x20;
    E->asmOut = {V(a, 32), V(b, 32), V(c, 32), V(d, 32)}; r = V(0, 64); return true; }
  if (x86 && has("xgetbv")) { r = V(7, 32); return true; }
  if (has("stfle")) { u64 p = E->concretize(A[1]); for (int i = 0; i < 4; i++) E->storeV(E->P(p + 8 * i), V(~0ULL, 64), 8); r = V(0, 64); return true; }
  if (has("cpucfg")) { r = V(0x0060c3cf & ~(1u << 28), 32); return true; }
  if (has("cfc1")) { r = V(E->pw == 64 ? (3 << 16 | 1 << 22) : (3 << 16), 32); return true; }
  if (has("csrr")) { r = V(16, E->pw); return true; }
  if (has("dcbf") || has("icbi") || has("isync") || has("sync") || has("dbar") || has("fence")) { r = V(0, E->pw); return true; }
  if (has("cntlzd") || has("cntlzw")) { unsigned w = has("cntlzd") ? 64 : 32; V a = vtrunc(A[0], w); r = V(w, E->pw); if (a.conc()) r = vzx(vclz(a), E->pw); else for (int i = w - 1; i >= 0; i--) if (E->branch(vbit(a, i))) { r = V(w - 1 - i, E->pw); break; } return true; }
  fprintf(stderr, "ASM %s args=%zu\n", nm.c_str(), A.size());
  return false; }
#define STUB(n) __attribute__((weak)) Machine* n(Engine&) { throw PathStop{"no simulator", 2}; }
STUB(mkX86) STUB(mkArm) STUB(mkThumb) STUB(mkMips) STUB(mkPpc) STUB(mkS390) STUB(mkLoong)
