#include "machine.h"
static u32 M0() { static u32 id = TM.uf("M0", false); return id; }
V UMem::init(V a) { return vuf(M0(), 8, a); }
V UMem::rd(V a) {
  // newest first
  std::vector<int> cand; bool exact = false; int ex = -1;
  for (int i = (int)w.size() - 1; i >= 0; i--) { V c = veq(w[i].addr, a); if (c.conc()) { if (c.c) { exact = true; ex = i; break; } continue; } cand.push_back(i); }
  V r = exact ? w[ex].val : init(a);
  for (int k = (int)cand.size() - 1; k >= 0; k--) r = vite(veq(w[cand[k]].addr, a), w[cand[k]].val, r);
  return r; }
void UMem::wr(V a, V b) { w.push_back({a, b}); }
bool isStk(const V& a, u64& x) { if (!a.conc()) return false; x = a.c; return x >= STK_LO && x < STK_HI; }
void Machine::needAligned(V a, unsigned n) {
  unsigned k = __builtin_ctz(n); V low = vext(a, 0, k); if (low.is(0)) return;
  if (!E.provable(veq(low, V(0, k)))) { E.assume(vne(low, V(0, k))); char b[120]; snprintf(b, 120, "%u-byte access that requires alignment may be misaligned (code+0x%llx)", n, (unsigned long long)(pc - codeLo)); throw PathStop{b, 1}; } }
V Machine::load(V a, unsigned n, bool al) {
  if (!a.conc() && canon) a = canon(a);
  if (al && n > 1) needAligned(a, n);
  u64 x; V r; bool first = true; bool stack = isStk(a, x);
  if (a.conc() && !stack && a.c >= codeLo && a.c < codeHi + 64) { if (!E.mem.valid(a.c, n)) { throw PathStop{"generated code reads invalid code memory", 1}; } return E.mem.load(a.c, n, be); }
  if (a.conc() && !stack && a.c >= 0x08000000 && a.c < 0x0c000000 && E.mem.valid(a.c, n)) return E.mem.load(a.c, n, be); // constants of the library
  if (useE && !stack) return E.loadV(a, n);
  for (unsigned i = 0; i < n; i++) { unsigned o = be ? i : n - 1 - i; V b;
    if (stack) { stkR.push_back(x + o); auto it = stk.find(x + o); b = it != stk.end() ? it->second : UMem::init(V(x + o, xl)); }
    else b = um.rd(vadd(a, V(o, xl)));
    r = first ? b : vconcat(r, b); first = false; }
  if (!stack) acc.push_back({a, n, r, false});
  return r; }
void Machine::store(V a, V v, unsigned n, bool al) {
  if (!a.conc() && canon) a = canon(a);
  if (al && n > 1) needAligned(a, n);
  if (v.w != n * 8) v = vzx(v, n * 8);
  u64 x; bool stack = isStk(a, x);
  if (a.conc() && !stack && a.c >= codeLo && a.c < codeHi) throw PathStop{"generated code writes into the code", 1};
  if (useE && !stack) { E.storeV(a, v, n); return; }
  for (unsigned o = 0; o < n; o++) { V b = vext(v, 8 * (be ? n - 1 - o : o), 8); if (stack) { stk[x + o] = b; stkW.push_back(x + o); } else um.wr(vadd(a, V(o, xl)), b); }
  if (!stack) acc.push_back({a, n, v, true}); }
V Machine::fetch(u64 a, unsigned n) {
  if (a < codeLo || a + n > codeHi) { char b[120]; snprintf(b, 120, "control flow leaves the generated code (code%+lld)", (long long)(a - codeLo)); throw PathStop{b, 1}; }
  { static const char* tr = getenv("TRACE"); if (tr) fprintf(stderr, "  pc+%llx: %s\n", (unsigned long long)(a - codeLo), vstr(E.mem.load(a, n, be), 5).substr(0, 200).c_str()); }
  return E.mem.load(a, n, be); }
void Machine::run(u64 stop, u64 maxSteps) {
  stopped = false;
  while (pc != stop && !stopped) { if (pc < codeLo || pc >= codeHi) { if (trap && trap(*this)) continue; }
    if (++steps > maxSteps) throw PathStop{"generated code does not terminate within the step bound", 1};
    step(); } }
void fpMeaning(UFInfo&, unsigned, unsigned); // fp.cpp
V fpop(const std::string& name, unsigned w, V a, V b, V c, bool commut) {
  std::string k = name + "." + std::to_string(w) + "." + std::to_string(a.w); u32 id = TM.uf(k, commut); if (!TM.ufs[id].ev2) fpMeaning(TM.ufs[id], w, a.w); return vuf(id, w, a, b, c); }
