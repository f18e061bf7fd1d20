// Modes that check the compiler itself instead of executing the generated code (usable for every target)
#include "tasks.h"
#include <algorithm>
int GMODE = 0;
static bool is(const std::string& f, const char* p) { return f.compare(0, strlen(p), p) == 0; }
// what kind of object a call returns: 0 label, 1 jump, 2 constant, -1 other
static int retKind(const std::string& f) { if (f == "sljit_emit_label" || f == "sljit_emit_aligned_label" || f == "tst_robuf") return 0; if (f == "sljit_emit_jump" || f == "sljit_emit_call" || f == "sljit_emit_cmp" || f == "sljit_emit_fcmp" || f == "sljit_emit_op2cmpz" || f == "sljit_emit_op_addr") return 1; if (f == "sljit_emit_const") return 2; return -1; }
static bool isVoid(const std::string& f) { return f == "sljit_set_label" || f == "sljit_set_target" || f == "sljit_set_current_flags" || f == "tst_robuf_label" || f == "sljit_free_compiler"; }
static u64 ci(Ctx& c, const char* fn, std::vector<V> a) { return c.E.concretize(c.E.call(fn, a)); }
V Ctx::gmApi(const std::string& fn, const std::vector<V>& args) {
  if (!customReplay) customReplay = [this](Model& m) { return gmReplay(m); };
  bool haveComp = comp.w && comp.conc() && comp.c && fn != "sljit_create_compiler"; gm.calls++;
  if (GMODE == 2) {
    if (fn == "sljit_create_compiler") { comp = V(); E.failHook = [this]() -> bool { if (gm.user) return false; int n = gm.allocs++; if (gm.fired) { bool all = E.branch(var("fail.all", 1)); if (all && gm.how.find("all") == std::string::npos) gm.how += " all"; return all; } if (E.branch(veq(var("fail.at", 16), V(n, 16)))) { gm.fired = true; gm.how = "failat " + std::to_string(n); return true; } return false; }; }
    else if (haveComp && !gm.fired && is(fn, "sljit_") && E.branch(veq(var("fail.user", 16), V(gm.calls, 16)))) { log.push_back({"sljit_set_compiler_memory_error", {comp}, -1}); E.call("sljit_set_compiler_memory_error", {comp}); gm.fired = gm.user = true; gm.err = sx(ci(*this, "hz_error", {comp}), 32); if (gm.err != K.c_ERR_ALLOC_FAILED) throw PathStop{"sljit_set_compiler_memory_error did not set the error", 1}; } }
  log.push_back({fn, args, -1}); if (haveComp) gm.size0 = ci(*this, "hz_size", {comp}); bool was = gm.fired;
  if (gm.fired && fn == "tst_robuf_label") return E.P(0);
  bool watch = GMODE == 1 && haveComp && is(fn, "sljit_emit_"); std::vector<std::pair<u64,unsigned>> wr; if (watch) E.stHook = [&](V a, V, unsigned n) -> bool { u64 x = E.concretize(a); if (x >= E.heapBase && x < E.heapTop) wr.push_back({x, n}); return false; };
  struct Unhook { Engine& E; bool on; ~Unhook() { if (on) E.stHook = nullptr; } } unhook{E, watch};
  V r = E.call(fn, args);
  if (watch) { E.stHook = nullptr; unhook.on = false; u64 f = ci(*this, "hz_frag", {comp, V(0, 32)}), e = ci(*this, "hz_frag", {comp, V(1, 32)}); auto it = E.allocs.find(f); // nothing may be written behind the reserved part of the instruction buffer
    if (it != E.allocs.end()) for (auto& w : wr) if (w.first >= f && w.first < f + it->second && w.first + w.second > e) { int k = -1; for (auto& l : log) if (l.fn[0] != '@' && l.fn != "INITREGS" && l.fn != "DUMPREGS") k++; gm.tail = k; throw PathStop{fn + " writes past the space it reserved in the instruction buffer", 1}; } }
  if (gm.fired) {
    char b[200]; const char* f = fn.c_str();
    if (fn == "sljit_create_compiler") { if (E.concretize(r)) throw PathStop{"sljit_create_compiler succeeded although an allocation failed", 1}; if (!E.allocs.empty()) throw PathStop{"sljit_create_compiler leaks memory after an allocation failure", 1}; phase = 5; throw PathStop{"done", 6}; }
    if (haveComp) { st.obl += 4; i64 e = sx(ci(*this, "hz_error", {comp}), 32); // error set, unchanged, of the right kind, and the result says so
      if (!was) gm.err = e; if (e == 0) { snprintf(b, 200, "%s: an allocation failed but the compiler has no error", f); throw PathStop{b, 1}; }
      if (e != gm.err) { snprintf(b, 200, "%s: the error code changed from %lld to %lld", f, (long long)gm.err, (long long)e); throw PathStop{b, 1}; }
      if (e != K.c_ERR_ALLOC_FAILED) { snprintf(b, 200, "%s: allocation failure reported as error %lld", f, (long long)e); throw PathStop{b, 1}; }
      if (!isVoid(fn) && !(fn == "tst_filler" && args[1].conc() && (i64)sx(args[1].c, 32) <= 0)) { int k = retKind(fn); u64 v = E.concretize(k >= 0 ? r : vtrunc(r, 32)); if (k >= 0 && v) { snprintf(b, 200, "%s returned an object although the compiler has failed", f); throw PathStop{b, 1}; } if (k < 0 && sx(v, 32) != gm.err) { snprintf(b, 200, "%s returned %lld instead of the error %lld", f, (long long)sx(v, 32), (long long)gm.err); throw PathStop{b, 1}; } if (k >= 0) r = E.P(0); } } }
  return r; }
void Ctx::gmUnsupported() {
  i64 e = sx(ci(*this, "hz_error", {comp}), 32); u64 s = ci(*this, "hz_size", {comp}); char b[200]; const char* f = log.empty() ? "?" : log.back().fn.c_str();
  if (e) { snprintf(b, 200, "%s: an unsupported request put the compiler into the error state %lld", f, (long long)e); throw PathStop{b, 1}; }
  if (s != gm.size0) { snprintf(b, 200, "%s: an unsupported request emitted code", f); throw PathStop{b, 1}; } }
static void leakCheck(Ctx& c, const char* when) { char b[160]; for (auto& a : c.E.allocs) { snprintf(b, 160, "%llu bytes of memory are not released %s", (unsigned long long)a.second, when); throw PathStop{b, 1}; } if (!c.E.execs.empty()) { snprintf(b, 160, "executable memory is not released %s", when); throw PathStop{b, 1}; } }
static void locate(Ctx& c) { auto& E = c.E; c.codeLo = ci(c, "hz_func_addr", {c.code}) & ~1ULL; c.codeSize = ci(c, "hz_code_size", {c.comp}); }
static void checkCode(Ctx& c, u64 base, u64 size, bool holes) {
  auto& E = c.E; char b[200]; if (c.codeLo < base || c.codeLo + c.codeSize > base + size) { snprintf(b, 200, "the reported code range [0x%llx, +%llu) is not inside the allocation of %llu bytes", (unsigned long long)c.codeLo, (unsigned long long)c.codeSize, (unsigned long long)size); throw PathStop{b, 1}; }
  V un = var("exec.uninit", 8); if (!holes) for (u64 a = c.codeLo; a < c.codeLo + c.codeSize; a++) { V x = E.mem.getByte(a); if (!x.conc() && x.t == un.t) { snprintf(b, 200, "byte %llu of the %llu bytes of generated code was never written", (unsigned long long)(a - c.codeLo), (unsigned long long)c.codeSize); throw PathStop{b, 1}; } } 
  for (u64 a = c.codeLo + c.codeSize; a < base + size && a < c.codeLo + c.codeSize + 4096; a++) { } }
static void gen(Ctx& c) {
  auto& E = c.E; char b[200]; bool holes = AI.name == "s390x" || AI.name == "armv6" /* literal pool padding */; for (auto& l : c.log) if (l.fn == "tst_robuf" || l.fn == "sljit_emit_aligned_label" || l.fn == "tst_filler") holes = true;
  u32 h = 0; for (char ch : c.taskId) h = h * 31 + ch; bool buf = false; u64 base, size;
  V bs = var("gen.buf", 1); if (h % 3 == 0) buf = E.branch(bs);
  if (buf) { u64 cap = 16384; base = E.doMalloc(cap); V un = var("exec.uninit", 8); for (u64 i = 0; i < cap; i++) E.mem.setByte(base + i, un); V sz = var("gen.bufsize", AI.xl); E.assume(vule(sz, cw(cap))); c.log.push_back({"@buffer", {sz}, -1});
    c.code = E.call("hz_generate_buffer", {c.comp, E.P(base), sz, E.P(0)});
    if (E.concretize(c.code) == 0) { i64 e = sx(ci(c, "hz_error", {c.comp}), 32); if (e != K.c_ERR_EX_ALLOC_FAILED && e != K.c_ERR_ALLOC_FAILED) { snprintf(b, 200, "sljit_generate_code into a buffer that is too small reports error %lld", (long long)e); throw PathStop{b, 1}; }
      for (u64 i = 0; i < cap; i++) { V x = E.mem.getByte(base + i); if (x.conc() || x.t != un.t) throw PathStop{"sljit_generate_code wrote to a buffer that it reported as too small", 1}; }
      E.call("sljit_free_compiler", {c.comp}); E.doFree(base); leakCheck(c, "after sljit_free_compiler"); c.phase = 5; return; }
    locate(c); u64 last = 0; for (u64 i = 0; i < cap; i++) { V x = E.mem.getByte(base + i); if (x.conc() || x.t != un.t) last = i + 1; }
    c.check(vule(cw(std::max(last, c.codeLo - base + c.codeSize)), sz), "sljit_generate_code writes past the end of the given buffer"); size = cap; }
  else { c.code = E.call("sljit_generate_code", {c.comp, V(0, 32), E.P(0)}); if (E.concretize(c.code) == 0) { snprintf(b, 200, "sljit_generate_code failed with error %lld", (long long)sx(ci(c, "hz_error", {c.comp}), 32)); throw PathStop{b, 1}; } if (E.execs.size() != 1) throw PathStop{"sljit_generate_code did not allocate exactly one block", 1}; base = E.execs.begin()->first; size = E.execs.begin()->second; locate(c); }
  c.phase = 4; checkCode(c, base, size, holes); c.checkLayout();
  V T = vshl(vzx(var("gen.target", 24), AI.xl), cw(3)), CV = var("gen.const", AI.xl); u64 eo = 0; std::set<u64> seen;
  auto inside = [&](u64 a, const char* what, bool end) { if (a < c.codeLo || a > c.codeLo + c.codeSize || (!end && a == c.codeLo + c.codeSize)) { snprintf(b, 200, "%s address 0x%llx is outside the generated code [0x%llx, +%llu)", what, (unsigned long long)a, (unsigned long long)c.codeLo, (unsigned long long)c.codeSize); throw PathStop{b, 1}; } };
  for (auto& l : c.log) { if (l.ret < 0) continue; V hd = c.handles[l.ret]; if (!hd.conc() || !hd.c) continue; int k = retKind(l.fn);
    if (k == 0 && l.fn != "tst_robuf") inside(ci(c, "hz_label_abs_addr", {hd}), "label", true);
    if (k == 1) { if (l.fn == "sljit_emit_op_addr" || !((int)E.concretize(l.args[1]) & K.c_REWRITABLE_JUMP)) continue; u64 a = ci(c, "hz_jump_addr", {hd}); inside(a, "jump", false); if (seen.insert(a).second) E.call("sljit_set_jump_addr", {E.P(a), T, E.P(eo)}); }
    if (k == 2) { u64 a = ci(c, "hz_const_addr", {hd}); inside(a, "constant", false); if (seen.insert(a).second) E.call("sljit_set_const", {E.P(a), l.args[1], CV, E.P(eo)}); } }
  // a compiler that has generated its code accepts nothing more
  V again = E.call("sljit_generate_code", {c.comp, V(0, 32), E.P(0)}); if (E.concretize(again)) throw PathStop{"a second sljit_generate_code returned code", 1};
  i64 e0 = sx(ci(c, "sljit_emit_op0", {c.comp, V(K.c_NOP, 32)}), 32); if (e0 != K.c_ERR_COMPILED) { snprintf(b, 200, "sljit_emit_op0 after sljit_generate_code returns %lld", (long long)e0); throw PathStop{b, 1}; }
  if (E.concretize(E.call("sljit_emit_label", {c.comp})) || E.concretize(E.call("sljit_emit_jump", {c.comp, V(K.c_JUMP, 32)}))) throw PathStop{"an emit function returned an object after sljit_generate_code", 1};
  if (buf) E.doFree(base); else E.call("sljit_free_code", {c.code, E.P(0)}); E.call("sljit_free_compiler", {c.comp}); leakCheck(c, "after sljit_free_code and sljit_free_compiler"); c.phase = 5; c.discharge(); }
static void failing(Ctx& c) {
  auto& E = c.E; char b[200]; bool was = c.gm.fired; c.gm.calls++;
  if (!was && E.branch(veq(var("fail.user", 16), V(c.gm.calls, 16)))) { c.log.push_back({"sljit_set_compiler_memory_error", {c.comp}, -1}); E.call("sljit_set_compiler_memory_error", {c.comp}); c.gm.fired = c.gm.user = true; c.gm.err = K.c_ERR_ALLOC_FAILED; was = true; }
  V code = E.call("sljit_generate_code", {c.comp, V(0, 32), E.P(0)}); u64 cp = E.concretize(code); i64 e = sx(ci(c, "hz_error", {c.comp}), 32);
  if (c.gm.fired) { c.st.obl += 6; // no code, error kind, failure stays (3 calls), no leak
    if (cp) throw PathStop{"sljit_generate_code returned code although a memory allocation failed", 1};
    if (was && e != c.gm.err) { snprintf(b, 200, "sljit_generate_code changed the error from %lld to %lld", (long long)c.gm.err, (long long)e); throw PathStop{b, 1}; }
    if (!was && e != K.c_ERR_EX_ALLOC_FAILED && e != K.c_ERR_ALLOC_FAILED) { snprintf(b, 200, "an allocation failed in sljit_generate_code but the compiler's error is %lld", (long long)e); throw PathStop{b, 1}; }
    E.failHook = nullptr; // memory is available again: the failure must stay
    if (E.concretize(E.call("sljit_generate_code", {c.comp, V(0, 32), E.P(0)}))) throw PathStop{"sljit_generate_code succeeded on a compiler that had failed", 1};
    i64 e2 = sx(ci(c, "sljit_emit_op0", {c.comp, V(K.c_NOP, 32)}), 32); if (e2 != e) { snprintf(b, 200, "sljit_emit_op0 after the failure returns %lld instead of %lld", (long long)e2, (long long)e); throw PathStop{b, 1}; }
    if (E.concretize(E.call("sljit_emit_label", {c.comp}))) throw PathStop{"sljit_emit_label returned a label after the failure", 1};
    E.call("sljit_free_compiler", {c.comp}); leakCheck(c, "after the failed compiler is freed"); c.phase = 5; return; }
  if (!cp) { snprintf(b, 200, "sljit_generate_code failed with error %lld", (long long)e); throw PathStop{b, 1}; }
  c.phase = 5; }
// ---------------------------------------------------------------- serialization
struct Gen1 { u64 codeLo, size; std::vector<V> bytes; std::vector<u64> addr; };
static std::vector<u64> list(Ctx& c, V comp, int k) { std::vector<u64> v; V p = c.E.call("hz_first", {comp, cw(k)}); while (u64 a = c.E.concretize(p)) { v.push_back(a); if (v.size() > 5000) throw PathStop{"the list of labels, jumps or constants does not end", 1}; p = c.E.call("hz_next", {p, cw(k)}); } return v; }
static Gen1 genCode(Ctx& c, V comp, const std::vector<V>& H) {
  auto& E = c.E; Gen1 g; u64 top = E.mmapTop; V code = E.call("sljit_generate_code", {comp, V(0, 32), E.P(0)}); if (!E.concretize(code)) throw PathStop{"sljit_generate_code failed with error " + std::to_string((long long)sx(ci(c, "hz_error", {comp}), 32)), 1};
  g.codeLo = ci(c, "hz_func_addr", {code}); g.size = ci(c, "hz_code_size", {comp}); for (u64 i = 0; i < g.size; i++) g.bytes.push_back(E.mem.getByte((g.codeLo & ~1ULL) + i));
  for (auto& l : c.log) { if (l.ret < 0) continue; V hd = H[l.ret]; if (!hd.conc() || !hd.c) continue; int k = retKind(l.fn); if (k == 0 || l.fn == "tst_robuf_label") g.addr.push_back(ci(c, "hz_label_addr", {hd})); else if (k == 1) g.addr.push_back(ci(c, "hz_jump_addr", {hd})); else if (k == 2) g.addr.push_back(ci(c, "hz_const_addr", {hd})); }
  E.call("sljit_free_code", {code, E.P(0)}); E.call("sljit_free_compiler", {comp}); E.mmapTop = top; return g; }
static void ser(Ctx& c) {
  auto& E = c.E; char b[220]; Gen1 g1 = genCode(c, c.comp, c.handles); leakCheck(c, "after the first compiler is freed");
  int n = (int)c.log.size(); std::vector<int> cuts; int tier = THOROUGH ? 1000 : 12; for (int i = 1; i <= n; i++) if (i == n || c.log[i].fn != "tst_robuf_label") cuts.push_back(i);
  // cut point: symbolic choice
  int cut = cuts.back(); { V s = var("ser.cut", 16); size_t step = std::max<size_t>(1, cuts.size() / tier); for (size_t i = 0; i < cuts.size(); i += step) if (E.branch(veq(s, V(cuts[i], 16)))) { cut = cuts[i]; break; } }
  c.gm.cut = cut; u32 hsh = 0; for (char ch : c.taskId) hsh = hsh * 31 + ch; bool full = THOROUGH || (std::find(cuts.begin(), cuts.end(), cut) - cuts.begin()) % 4 == (long)(hsh % 4); bool twice = full && E.branch(var("ser.twice", 1)); if (twice) c.gm.how += " twice";
  std::vector<V> H(c.handles.size()); std::unordered_map<u64,V> map; V comp;
  auto sub = [&](V a) { if (a.conc() && a.w == AI.xl && a.c) { auto it = map.find(a.c); if (it != map.end()) return it->second; } return a; };
  auto run = [&](int lo, int hi) { for (int i = lo; i < hi; i++) { auto& l = c.log[i]; std::vector<V> a; for (V x : l.args) a.push_back(sub(x)); V r = E.call(l.fn, a); if (l.fn == "sljit_create_compiler") comp = r; if (l.ret >= 0) { V o = c.handles[l.ret]; H[l.ret] = r; if (o.conc() && o.c) { if (!E.concretize(r)) { snprintf(b, 220, "%s failed after deserialization (call %d, serialized before call %d)", l.fn.c_str(), i, cut); throw PathStop{b, 1}; } map[o.c] = r; } } else if (!isVoid(l.fn)) { if (E.concretize(vtrunc(r, 32))) { snprintf(b, 220, "%s returned an error after deserialization (call %d, serialized before call %d)", l.fn.c_str(), i, cut); throw PathStop{b, 1}; } } } };
  // handles of the second run may repeat addresses of the first: run it on fresh addresses
  map.clear(); run(0, cut);
  for (int round = 0; round <= (int)twice; round++) {
    std::vector<std::vector<u64>> old; for (int k = 0; k < 3; k++) old.push_back(list(c, comp, k));
    auto live = E.allocs; V buf = E.call("hz_serialize", {comp, V(0, 32)}); u64 ba = E.concretize(buf); u64 sz = ci(c, "hz_ser_size", {}); if (!ba) throw PathStop{"sljit_serialize_compiler failed", 1};
    if (sz % (AI.xl / 8) || E.allocs.at(ba) < sz) throw PathStop{"the reported size of the serialized buffer is wrong", 1};
    // serialization does not modify the compiler: every live byte outside the new buffer is unchanged is implied by comparing the code of a compiler that was serialized but kept
    bool keep = full && round == 0 && E.branch(var("ser.keep", 1)); if (keep) { c.gm.how += " keep"; E.call("hz_free", {buf}); continue; }
    if (full && round == 0) { // truncated buffers and foreign headers are refused without leaks
      V tr = var("ser.trunc", 16); u64 W = AI.xl / 8; u64 words = sz / W; std::vector<u64> cand; for (u64 i = 0; i < words; i += std::max<u64>(1, words / 6)) cand.push_back(i); cand.push_back(words - 1); u64 hw = ci(c, "hz_ser_header", {}) / W; cand.push_back(hw); cand.push_back(hw - 1); std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
      for (u64 w : cand) if (w < words && E.branch(veq(tr, V(w, 16)))) { c.gm.trunc = (int)w; u64 nb = E.doMalloc(w * W); for (u64 i = 0; i < w * W; i++) E.mem.setByte(nb + i, E.mem.getByte(ba + i)); E.call("sljit_free_compiler", {comp}); E.call("hz_free", {buf}); V d = E.call("sljit_deserialize_compiler", {E.P(nb), cw(w * W), V(0, 32), E.P(0)}); if (E.concretize(d)) { snprintf(b, 220, "a serialized buffer of %llu bytes cut to %llu bytes is accepted", (unsigned long long)sz, (unsigned long long)(w * W)); throw PathStop{b, 1}; } E.doFree(nb); leakCheck(c, "after a truncated buffer is refused"); c.phase = 5; return; }
      if (E.branch(var("ser.hdr", 1))) { c.gm.how += " hdr"; V hv = var("ser.header", 64); V o = E.mem.load(ba, 4, E.be), ov = E.mem.load(ba + 4, 2, E.be); V ns = vext(hv, 0, 32), nv = vext(hv, 32, 16); E.assume(vnot(vand(veq(ns, o), veq(nv, ov)))); E.mem.store(ba, ns, 4, E.be); E.mem.store(ba + 4, nv, 2, E.be); E.call("sljit_free_compiler", {comp}); V d = E.call("sljit_deserialize_compiler", {buf, cw(sz), V(0, 32), E.P(0)}); if (E.concretize(d)) throw PathStop{"a serialized buffer with a different signature or version is accepted", 1}; E.call("hz_free", {buf}); leakCheck(c, "after a foreign buffer is refused"); c.phase = 5; return; } }
    E.call("sljit_free_compiler", {comp});
    // exact copy of the buffer, so that reads beyond the reported size are seen
    u64 nb = E.doMalloc(sz); for (u64 i = 0; i < sz; i++) E.mem.setByte(nb + i, E.mem.getByte(ba + i)); E.call("hz_free", {buf});
    int na = 0; bool failed = false; if (full && round == 0) E.failHook = [&]() -> bool { if (E.branch(veq(var("ser.fail", 16), V(na++, 16)))) { failed = true; c.gm.how += " dfail " + std::to_string(na - 1); return true; } return false; };
    comp = E.call("sljit_deserialize_compiler", {E.P(nb), cw(sz), V(0, 32), E.P(0)}); E.failHook = nullptr;
    if (failed) { if (E.concretize(comp)) throw PathStop{"sljit_deserialize_compiler succeeded although an allocation failed", 1}; E.doFree(nb); leakCheck(c, "after deserialization ran out of memory"); c.phase = 5; return; }
    if (!E.concretize(comp)) throw PathStop{"sljit_deserialize_compiler refuses a buffer written by sljit_serialize_compiler", 1}; E.doFree(nb);
    static const char* nm[3] = {"labels", "jumps", "constants"}; std::unordered_map<u64,V> mv; mv[0] = V(0, AI.xl);
    for (int k = 0; k < 3; k++) { auto now = list(c, comp, k); if (now.size() != old[k].size()) { snprintf(b, 220, "%zu %s before and %zu after serialization", old[k].size(), nm[k], now.size()); throw PathStop{b, 1}; } for (size_t i = 0; i < now.size(); i++) mv[old[k][i]] = cw(now[i]); }
    for (int i = 0; i < cut; i++) { auto& l = c.log[i]; if (l.fn == "sljit_create_compiler") { H[l.ret] = comp; map[c.handles[l.ret].c] = comp; continue; } if (l.ret < 0 || !H[l.ret].w) continue; V hv = H[l.ret]; if (!hv.conc() || !hv.c) continue; auto it = mv.find(hv.c); if (it == mv.end()) { snprintf(b, 220, "an object returned by %s is not enumerated", l.fn.c_str()); throw PathStop{b, 1}; } H[l.ret] = it->second; if (c.handles[l.ret].conc()) map[c.handles[l.ret].c] = it->second; } }
  run(cut, n); c.phase = 4; Gen1 g2 = genCode(c, comp, H); leakCheck(c, "after the deserialized compiler is freed");
  if (g1.codeLo != g2.codeLo) throw PathStop{"task error: code addresses differ", 2};
  if (g1.size != g2.size) { snprintf(b, 220, "code size %llu after deserialization, %llu without (serialized before call %d)", (unsigned long long)g2.size, (unsigned long long)g1.size, cut); throw PathStop{b, 1}; }
  for (size_t i = 0; i < g1.addr.size() && i < g2.addr.size(); i++) if (g1.addr[i] != g2.addr[i]) { snprintf(b, 220, "address %zu of a label, jump or constant is 0x%llx after deserialization, 0x%llx without", i, (unsigned long long)g2.addr[i], (unsigned long long)g1.addr[i]); throw PathStop{b, 1}; }
  for (u64 i = 0; i < g1.size; i++) { snprintf(b, 220, "byte %llu of the code differs after deserialization (serialized before call %d)", (unsigned long long)i, cut); c.check(veq(g1.bytes[i], g2.bytes[i]), b); }
  c.phase = 5; c.discharge(); }
void Ctx::gmFinish() { phase = 2; if (GMODE == 1) gen(*this); else if (GMODE == 2) failing(*this); else ser(*this); }
std::string Ctx::gmReplay(Model& m) {
  Ctx& c = *this; std::string s = "gm " + std::to_string(GMODE) + "\n"; char b[200]; 
  if (!gm.how.empty() || GMODE == 3) s += "gmhow" + std::string(gm.how.empty() || gm.how[0] == ' ' ? "" : " ") + gm.how + (GMODE == 3 ? " cut " + std::to_string(gm.cut) + " trunc " + std::to_string(gm.trunc) : "") + "\n";
  snprintf(b, 200, "execat %llx\n", (unsigned long long)(E.mmapBase + (AI.xl == 64 ? 16 : 8))); s += b; if (gm.how.find("hdr") != std::string::npos) { snprintf(b, 200, "hdr %llx\n", (unsigned long long)m.eval(var("ser.header", 64))); s += b; }
  snprintf(b, 200, "gmt %llx %llx\n", (unsigned long long)(m.eval(var("gen.target", 24)) << 3), (unsigned long long)m.eval(var("gen.const", AI.xl))); s += b;
  for (auto& l : log) if (l.fn == "@buffer") { snprintf(b, 200, "gmbuf %llx\n", (unsigned long long)m.eval(l.args[0])); s += b; }
  if (gm.tail >= 0) s += "gmtail " + std::to_string(gm.tail) + "\n";
  auto old = log; std::vector<ApiCall> lg; for (auto& l : log) if (l.fn[0] != '@' && l.fn != "INITREGS" && l.fn != "DUMPREGS") lg.push_back(l); log = lg; auto i0 = init0, f0 = finit0; init0.clear(); finit0.clear(); int ph = phase; phase = 0; auto sp0 = std::move(sp); sp = SpecState();
  s += replayText(m, false); log = old; init0 = i0; finit0 = f0; phase = ph; sp = std::move(sp0); return s; }
