// C07: code patched at run time. Also jumps, calls and taken addresses with symbolic absolute targets (C06)
#include "whole.h"
#include <algorithm>
static void okc(Ctx& c, V r, const char* what) { if (c.gmDead()) return; u64 v = c.E.concretize(r); if (v) throw PathStop{std::string(what) + " returned an error for a valid call", sx(v, 32) == K.c_ERR_UNSUPPORTED ? 4 : 1}; }
static V nnj(Ctx& c, V j, const char* what) { if (!c.gmDead() && !c.E.concretize(j)) throw PathStop{std::string(what) + " returned NULL for a valid call", 1}; return j; }
static u32 hsh(u32 x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; x ^= x >> 16; return x; }
static int AR(int ret, std::vector<int> a) { int v = ret; for (size_t k = 0; k < a.size(); k++) v |= a[k] << (4 * (k + 1)); return v; }
static bool wxCfg() { return AI.variant == "wx"; }
// where the code is placed: 0 the usual block, 1 far away, 2 close to the 2 GB boundary, 3 above it
static u64 codeBases[] = {0x20000000, 0x3a5a00000000ULL, 0x7fff8000, 0xb0000000};
static void placeCode(Ctx& c, int where) { if (AI.xl == 32 && where == 1) where = 3; if (AI.variant == "prot") return; if (where) c.E.mmapTop = codeBases[where]; char b[60]; snprintf(b, 60, "execat %llx", (unsigned long long)(codeBases[where] + (AI.xl == 64 ? 16 : 8))); c.replayExtra.push_back(b); }
static std::string execLine(Ctx& c) { if (AI.variant == "prot") return "icache 1"; return c.replayExtra.empty() ? "" : c.replayExtra[0]; }
// What happens to the memory of the code: page permissions (write-xor-execute allocator) and instruction cache
struct CodeWatch {
  Ctx& c; Engine& E; std::set<u64> dirty; std::map<u64,int> prot; std::function<bool(const std::string&, const std::vector<V>&, V&)> old;
  CodeWatch(Ctx& cc) : c(cc), E(cc.E) {
    old = E.extHook;
    E.extHook = [this](const std::string& nm, const std::vector<V>& A, V& r) -> bool {
      if (nm == "mprotect") { u64 a = E.concretize(A[0]), n = E.concretize(A[1]); int p = (int)E.concretize(A[2]); if (a & 4095) throw PathStop{"mprotect with an address that is not page aligned", 1}; for (u64 x = a; x < a + n; x += 4096) prot[x] = p; r = V(0, 32); return true; }
      if (nm.find("clear_cache") != std::string::npos) { u64 a = E.concretize(A[0]) - E.execOffset, b = E.concretize(A[1]) - E.execOffset; dirty.erase(dirty.lower_bound(a), dirty.lower_bound(b)); r = V(); return true; }
      return old ? old(nm, A, r) : false; };
    E.stHook = [this](V a, V v, unsigned n) -> bool { if (!a.conc()) return false; auto it = E.execs.upper_bound(a.c); if (it == E.execs.begin()) return false; --it; if (a.c >= it->first + it->second) return false;
      for (unsigned k = 0; k < n; k++) { dirty.insert(a.c + k); if (wxCfg()) { auto p = prot.find((a.c + k) & ~4095ULL); if (p != prot.end() && !(p->second & 2)) { char b[120]; snprintf(b, 120, "write to code+%lld while its page is not writable", (long long)(a.c + k - it->first)); throw PathStop{b, 1}; } } }
      return false; }; }
  ~CodeWatch() { E.extHook = old; E.stHook = nullptr; E.execLead = 0; }
  // write-xor-execute: the code also starts shortly before the end of a page, so that patched words lie across the boundary of two pages
  bool led = false;
  void lead() { if (!wxCfg() || !c.replayExtra.empty()) return; u64 k = E.concretize(var("wx.lead", 5)); if (k == 31) return; led = true; E.execLead = (int)(4096 - 48 - 8 * k); char b[60]; snprintf(b, 60, "execat %llx", (unsigned long long)(E.mmapTop + E.execLead)); c.replayExtra.push_back(b); }
  void across(const std::vector<u64>& at, u64 before, u64 after) { if (!led) return; for (u64 a : at) if (((a - before) & ~4095ULL) != ((a + after - 1) & ~4095ULL)) return; c.phase = 5; throw PathStop{"done", 6}; }
  void ready() { // called before the code runs
    char b[160]; u64 lo = c.codeLo - E.execOffset;
    if (wxCfg()) for (u64 p = lo & ~4095ULL; p < lo + c.codeSize; p += 4096) { auto it = prot.find(p); if (it == prot.end() || !(it->second & 4)) { snprintf(b, 160, "page of code+%lld is not executable when the code runs", (long long)(p - lo)); throw PathStop{b, 1}; } }
    if (AI.isa != "x86" && AI.isa != "s390") for (u64 a : dirty) if (a >= lo && a < lo + c.codeSize) { snprintf(b, 160, "modified byte at code+%lld is not flushed from the instruction cache", (long long)(a - lo)); throw PathStop{b, 1}; } } };
static void patchLine(WF& w, const std::string& s, std::vector<V> v) { w.dyn.push_back({s, v}); }
static std::string hidx(Ctx& c, V o) { for (size_t q = 0; q < c.handles.size(); q++) if (c.handles[q].conc() && o.conc() && c.handles[q].c == o.c) return "h" + std::to_string(q); throw PathStop{"object without a handle", 2}; }
static V execOff(Ctx& c) { return c.E.call("hz_exec_offset", {c.comp}); }
// ---------------------------------------------------------------- constants
struct CK { int op; int dst; };
static std::vector<int> constOps() { std::vector<int> v{K.c_MOV, K.c_MOV_U8, K.c_MOV32}; if (AI.xl == 64) { v.push_back(K.c_MOV_S32); v.push_back(K.c_MOV32_U8); } return v; }
static int memLen(int op);
static int constLen(int op) { int b = op & 0xff; if (b == K.c_MOV_U8) return 1; if (b == K.c_MOV_S32 || (AI.xl == 64 && b == (K.c_MOV32 & 0xff) && op == K.c_MOV32)) return 4; return AI.xl / 8; }
static int memLen(int op) { return op == K.c_MOV_S32 ? AI.xl / 8 : constLen(op); } // MOV_S32 stores a sign extended word
static bool is32op(int op) { return AI.xl == 64 && (op == K.c_MOV32 || op == K.c_MOV32_U8); }
static V constVal(int op, V v, bool reg) { // value in a register (word) or of the stored bytes
  int n = constLen(op) * 8; if (n == 8) { if (!reg) return vtrunc(v, 8); return vite(vbit(v, 8), vsext(vtrunc(v, 8), AI.xl) .w ? vor(vzx(vtrunc(v, 8), AI.xl), cw(-256)) : cw(0), vzx(vtrunc(v, 8), AI.xl)); }
  if (n == 32 && AI.xl == 64) return reg || op == K.c_MOV_S32 ? vsxt(vtrunc(v, 32), 64) : vtrunc(v, 32); return v; }
static const char* dstN[] = {"r0", "r3", "r5", "s0", "s4", "loc", "abs", "b", "bx", "locf"};
struct Site { CK k; V cst; u64 addr; V val; int out; };
static Opnd constDst(WF& w, int d, int out) { switch (d) { case 0: return R(0); case 1: return R(3); case 2: return R(5); case 3: return S(0); case 4: return S(4); case 5: return MEM1(rSP(), 16); case 6: return w.OUT(out); case 7: return MEM1(rS(1), 16 * out - 64); case 8: return MEM2(rS(1), rS(2), 3); default: return MEM1(rSP(), 5000); } }
static V initConst(int op, const std::string& n) { return constLen(op) == 1 ? vsxt(var(n, 9), AI.xl) : sw(n); }
static void constTask(Ctx& c, std::vector<CK> ks, int np, int pad, bool flags) {
  WF w(c); CodeWatch cwt(c); cwt.lead(); c.createCompiler(); c.enter(0, 0, 6, 5, 0, 0, ks[0].dst == 9 ? 6000 : 64); auto preset = [&](int k, u64 v) { unsigned W = AI.xl / 8; for (unsigned q = 0; q < W; q++) w.preset[INB + 16 * k + q] = V(v >> (8 * (AI.be ? W - 1 - q : q)) & 255, 8); };
  preset(6, OUTB + 64); preset(7, 40); for (int i = 0; i < 6; i++) w.ld(rR(i), i); for (int i = 0; i < 5; i++) w.ld(rS(i), i == 1 ? 6 : i == 2 ? 7 : 10 + i);
  std::vector<V> rv(64); for (int i = 0; i < 6; i++) rv[rR(i)] = w.inW(i); for (int i = 0; i < 5; i++) rv[rS(i)] = w.inW(i == 1 ? 6 : i == 2 ? 7 : 10 + i); std::set<int> r32; V fl;
  if (pad) okc(c, c.api("tst_filler", {c.comp, cw(pad)}), "op_custom");
  if (flags) { c.emit({L_OP2U, K.c_SUB | K.c_SET_Z, Opnd(), R(1), R(2)}); fl = vzx(veq(rv[rR(1)], rv[rR(2)]), AI.xl); }
  std::vector<Site> st; int n = 0; for (auto& k : ks) { Site s; s.k = k; s.out = 4 + 20 * n; s.val = initConst(k.op, "init" + std::to_string(n)); if (k.dst == 8) s.out = 24; Opnd d = constDst(w, k.dst, s.out);
    LI i; i.k = L_CONST; i.op = k.op; i.d = d; i.a = IMM(s.val); i.lab = n; c.emit(i); s.cst = c.labels[1000 + n]; st.push_back(s); n++;
    if (k.dst == 5 || k.dst == 9) { int len = memLen(k.op); int mv = len == 1 ? K.c_MOV_U8 : len == 4 && AI.xl == 64 ? K.c_MOV_U32 : K.c_MOV; if (!flags) { c.emit({L_OP1, mv, w.OUT(st.back().out), d}); } } }
  if (flags) { LI i; i.k = L_OPFLAGS; i.op = K.c_MOV; i.d = w.OUT(60); i.type = K.c_EQUAL; c.emit(i); w.out(60, fl, AI.xl / 8); }
  for (auto& s : st) if (flags && (s.k.dst == 5 || s.k.dst == 9)) { int len = memLen(s.k.op); c.emit({L_OP1, len == 1 ? K.c_MOV_U8 : len == 4 && AI.xl == 64 ? K.c_MOV_U32 : K.c_MOV, w.OUT(s.out), constDst(w, s.k.dst, s.out)}); }
  for (auto& s : st) { Opnd d = constDst(w, s.k.dst, s.out); if (d.k == OREG) { if (is32op(s.k.op)) r32.insert(d.r1); else r32.erase(d.r1); } }
  for (int i = 0; i < 11; i++) { int r = i < 6 ? rR(i) : rS(i - 6); c.emit({L_OP1, r32.count(r) ? K.c_MOV32 : K.c_MOV, w.OUT(70 + i), REG(r)}); }
  okc(c, c.api("sljit_emit_return_void", {c.comp}), "emit_return_void"); c.generate();
  V eo = execOff(c); for (auto& s : st) s.addr = constAddrOf(c, s.cst);
  { std::vector<u64> at; for (auto& s : st) at.push_back(s.addr); cwt.across(at, 8, 8); }
  for (int p = 0; p < np; p++) for (size_t q = 0; q < st.size(); q++) { size_t i = (p & 1) ? st.size() - 1 - q : q; if (p == 1 && q && ks.size() > 1) continue; V nv = sw("new" + std::to_string(p) + "." + std::to_string(i)); st[i].val = nv; c.E.call("sljit_set_const", {c.E.P(st[i].addr), V(st[i].k.op, 32), nv, eo}); patchLine(w, "pconst " + hidx(c, st[i].cst), {V(st[i].k.op, 32), nv}); }
  for (auto& s : st) if (constAddrOf(c, s.cst) != s.addr) throw PathStop{"the address of the constant changed", 1};
  w.start(0); cwt.ready(); w.rl.push_back("icache 1"); if (cwt.led) w.rl.push_back(execLine(c));
  for (auto& s : st) { Opnd d = constDst(w, s.k.dst, s.out); int len = memLen(s.k.op); if (d.k == OREG) rv[d.r1] = constVal(s.k.op, s.val, true); else { V b = constVal(s.k.op, s.val, false); w.out(s.out, b, len); } }
  for (int i = 0; i < 11; i++) { int r = i < 6 ? rR(i) : rS(i - 6); if (r32.count(r)) w.out(70 + i, vtrunc(rv[r], 32), 4); else w.out(70 + i, rv[r], AI.xl / 8); }
  // locals are stored as words: the loads above zero extend; 32-bit loads store a word
  w.addReplay(); w.run(); w.finish(); }
// ---------------------------------------------------------------- jumps
// Branch that leaves to a symbolic address
static V targetSym(Ctx& c, const std::string& n, int data = 0) {
  Engine& E = c.E; unsigned al = data ? 0 : AI.isa == "a64" ? 2 : AI.isa == "riscv" ? 1 : 0; unsigned hi = data ? AI.xl : AI.xl == 32 ? 32 : 47;
  V t = vshl(vzx(var(n, hi - al), AI.xl), cw(al));
  auto in = [&](u64 a, u64 b) { return vult(vsub(t, cw(a)), cw(b - a)); };
  if (data) return t;
  E.assume(vnot(vult(t, cw(0x8000000)))); for (u64 cb : codeBases) E.assume(vnot(in(cb - 0x10000, cb + 0x100000))); E.assume(vnot(in(0x3ff00000, 0x70000000))); if (AI.xl == 32) E.assume(vult(t, cw(0xc0000000))); else E.assume(vult(t, cw(0x7e0000000000))); return t; }
static void symJumps(WF& w) {
  w.c.M->jumpHook = [&w](Machine& M, V t) -> bool { for (auto& s : w.stubs) if (s.sym.w) { V q = veq(t, s.sym); if (q.conc() ? q.c : M.E.provable(q)) { M.pc = s.addr; return true; } } 
    for (auto& s : w.stubs) if (s.sym.w) { V q = veq(t, s.sym); if (M.E.satisfiable(vnot(q), nullptr)) { M.E.assume(vnot(q)); throw PathStop{"control goes to an address that is not the given target", 1}; } } return false; }; }
struct JK { int kind; int type; };
static const char* jkN[] = {"jump", "cond", "cmp", "fcmp", "op2z", "fast", "call", "tail", "regarg", "cond32"};
struct Targ { int what; }; // 0,1 forward labels, 2 backward label, 3 symbolic, 4 second symbolic
struct JBuild { V jump; V taken; };
static JBuild emitJ(WF& w, const JK& k, int rw, int tag) {
  Ctx& c = w.c; JBuild b; b.taken = V(1, 1); unsigned W = AI.xl; std::string sfx = std::to_string(tag); int t = k.type | rw;
  V A = w.inW(0), B = w.inW(1);
  switch (k.kind) {
  case 0: b.jump = nnj(c, c.apiH("sljit_emit_jump", {c.comp, V(K.c_JUMP | rw, 32)}), "emit_jump"); break;
  case 1: { int fl = k.type == K.c_EQUAL || k.type == K.c_NOT_EQUAL ? K.c_SET_Z : k.type == K.c_LESS || k.type == K.c_GREATER_EQUAL ? K.c_SET_LESS : k.type == K.c_SIG_GREATER || k.type == K.c_SIG_LESS_EQUAL ? K.c_SET_SIG_GREATER : K.c_SET_OVERFLOW; c.emit({L_OP2U, K.c_SUB | fl, Opnd(), R(0), R(1)}); b.jump = nnj(c, c.apiH("sljit_emit_jump", {c.comp, V(t, 32)}), "emit_jump"); break; }
  case 2: b.jump = nnj(c, c.apiH("sljit_emit_cmp", {c.comp, V(t, 32), V(rR(0), 32), cw(0), V(rR(1), 32), cw(0)}), "emit_cmp"); break;
  case 3: b.jump = nnj(c, c.apiH("sljit_emit_fcmp", {c.comp, V(t, 32), V(rFR(0), 32), cw(0), V(rFR(1), 32), cw(0)}), "emit_fcmp"); b.taken = V(); break;
  case 4: b.jump = nnj(c, c.apiH("sljit_emit_op2cmpz", {c.comp, V(K.c_SUB | (k.type ? K.c_JUMP_IF_ZERO : K.c_JUMP_IF_NON_ZERO) | rw, 32), V(rR(2), 32), cw(0), V(rR(0), 32), cw(0), V(rR(1), 32), cw(0)}), "emit_op2cmpz"); b.taken = k.type ? veq(A, B) : vne(A, B); break;
  case 5: b.jump = nnj(c, c.apiH("sljit_emit_jump", {c.comp, V(K.c_FAST_CALL | rw, 32)}), "emit_jump"); break;
  case 9: b.jump = nnj(c, c.apiH("sljit_emit_cmp", {c.comp, V(t | K.c_32, 32), V(rR(0), 32), cw(0), V(rR(1), 32), cw(0)}), "emit_cmp"); break; }
  if (k.kind == 1 || k.kind == 2 || k.kind == 9) { V a = A, q = B; if (k.kind == 9) a = vtrunc(A, 32), q = vtrunc(B, 32); 
    if (k.type == K.c_EQUAL) b.taken = veq(a, q); else if (k.type == K.c_NOT_EQUAL) b.taken = vne(a, q); else if (k.type == K.c_LESS) b.taken = vult(a, q); else if (k.type == K.c_GREATER_EQUAL) b.taken = vnot(vult(a, q)); else if (k.type == K.c_SIG_GREATER) b.taken = vslt(q, a); else if (k.type == K.c_SIG_LESS_EQUAL) b.taken = vnot(vslt(q, a));
    else { V d = vsub(a, q); V of = vext(vand(vxor(a, q), vxor(a, d)), a.w - 1, 1); b.taken = k.type == K.c_OVERFLOW ? of : vnot(of); } }
  (void)W; return b; }
// prog: one patched jump (and other jumps whose code may shrink around it); initial target, then the patches
static void jumpTask(Ctx& c, JK k, int init, std::vector<int> patches, int noise, int fill, bool rw, int nsites, int where = 0) {
  WF w(c); if (!rw || !wxCfg()) placeCode(c, where); CodeWatch cwt(c); if (rw && patches.size()) cwt.lead(); if (!cwt.led && c.replayExtra.empty()) placeCode(c, where); unsigned W = AI.xl / 8; c.createCompiler(); c.enter(0, 0, 5, 4, k.kind == 3 ? 2 : 0, 0, 48); for (int i = 0; i < 5; i++) if (i < 2 && k.kind == 9) c.emit({L_OP1, K.c_MOV32, R(i), w.IN(i)}); else w.ld(rR(i), i); for (int i = 0; i < 4; i++) w.ld(rS(i), 8 + i); if (k.kind == 3) { w.ldf(rFR(0), 20); w.ldf(rFR(1), 21); }
  bool usesSym = init >= 3; for (int p : patches) if (p >= 3) usesSym = true; V T1, T2; if (usesSym) { T1 = targetSym(c, "T1"); T2 = targetSym(c, "T2"); }
  V in0 = w.in(0, k.kind == 9 && AI.be ? 4 : 1); (void)in0;
  auto jmp = [&](int t) { return nnj(c, c.apiH("sljit_emit_jump", {c.comp, V(t, 32)}), "emit_jump"); }; auto lab = [&] { return nnj(c, c.apiH("sljit_emit_label", {c.comp}), "emit_label"); };
  bool isFast = k.kind == 5; std::vector<V> toEnd; auto mark = [&](i64 v) { c.emit({L_OP1, K.c_MOV, w.OUT(0), IMM(v)}); toEnd.push_back(jmp(K.c_JUMP)); };
  V over = jmp(K.c_JUMP); V back = lab(); if (isFast) okc(c, c.api("sljit_emit_op_dst", {c.comp, V(K.c_FAST_ENTER, 32), V(rS(2), 32), cw(0)}), "op_dst"); mark(0x40); c.api("sljit_set_label", {over, lab()});
  std::vector<V> nz; auto emitNoise = [&](int q) { if (!noise) return; V a = nnj(c, c.apiH("sljit_emit_cmp", {c.comp, V(K.c_EQUAL, 32), V(rR(3), 32), cw(0), V(K.c_IMM, 32), cw(q == 1 ? 5 : 0x12345)}), "emit_cmp"); c.emit({L_OP1, K.c_MOV, MEM1(rSP(), 8), IMM((i64)q)}); c.api("sljit_set_label", {a, lab()}); if (noise > 1) { LI i; i.k = L_CONST; i.op = K.c_MOV; i.d = MEM1(rSP(), 16); i.a = IMM(sw("nc")); i.lab = 90 + q; c.emit(i); V oa = nnj(c, c.apiH("sljit_emit_op_addr", {c.comp, V(K.c_MOV_ADDR, 32), V(K.c_MEM | K.c_SP, 32), cw(24)}), "emit_op_addr"); nz.push_back(oa); nz.push_back(jmp(K.c_JUMP)); c.api("sljit_set_label", {nz.back(), lab()}); } };
  emitNoise(1);
  std::vector<JBuild> js; for (int s = 0; s < nsites; s++) { js.push_back(emitJ(w, k, rw ? K.c_REWRITABLE_JUMP : 0, s)); if (s + 1 < nsites) { c.emit({L_OP1, K.c_MOV, w.OUT(2 + s), IMM((i64)(0x50 + s))}); emitNoise(3 + s); } }
  mark(0x10); emitNoise(2);
  if (fill) okc(c, c.api("tst_filler", {c.comp, cw(fill)}), "op_custom");
  V l0 = lab(); if (isFast) okc(c, c.api("sljit_emit_op_dst", {c.comp, V(K.c_FAST_ENTER, 32), V(rR(4), 32), cw(0)}), "op_dst"); mark(0x20); V l1 = lab(); if (isFast) okc(c, c.api("sljit_emit_op_dst", {c.comp, V(K.c_FAST_ENTER, 32), V(rS(3), 32), cw(0)}), "op_dst"); mark(0x30);
  V end = lab(); for (auto& j : toEnd) c.api("sljit_set_label", {j, end}); for (size_t i = 0; i < nz.size(); i += 2) c.api("sljit_set_label", {nz[i], end});
  auto setInit = [&](V j, int t) { if (t == 0) c.api("sljit_set_label", {j, l0}); else if (t == 1) c.api("sljit_set_label", {j, l1}); else if (t == 2) c.api("sljit_set_label", {j, back}); else c.api("sljit_set_target", {j, t == 3 ? T1 : T2}); };
  for (auto& j : js) setInit(j.jump, init);
  for (int i = 0; i < 5; i++) if (!(i == 2 && k.kind == 4) && !(i < 2 && k.kind == 9) && !(isFast && i == 4)) c.emit({L_OP1, K.c_MOV, w.OUT(10 + i), R(i)}); for (int i = 0; i < 4; i++) if (!(isFast && i >= 2)) c.emit({L_OP1, K.c_MOV, w.OUT(20 + i), S(i)});
  okc(c, c.api("sljit_emit_return_void", {c.comp}), "emit_return_void"); c.generate(); V eo = execOff(c);
  // patch: the first site gets the whole list, the others keep their target unless the list says otherwise
  std::vector<int> cur(nsites, init); std::vector<u64> ja; if (rw) for (auto& j : js) ja.push_back(jumpAddrOf(c, j.jump));
  V labs[3] = {l0, l1, back}; int pn = 0; for (int p : patches) { int s = pn++ % nsites; V nv = p < 3 ? c.E.call("hz_label_addr", {labs[p]}) : p == 3 ? T1 : T2; c.E.call("sljit_set_jump_addr", {c.E.P(ja[s]), nv, eo}); cur[s] = p; if (p < 3) patchLine(w, "pjumpl " + hidx(c, js[s].jump) + " " + hidx(c, labs[p]), {}); else patchLine(w, "pjump " + hidx(c, js[s].jump), {nv}); }
  if (rw) for (size_t q = 0; q < js.size(); q++) if (jumpAddrOf(c, js[q].jump) != ja[q]) throw PathStop{"the address of the jump changed", 1};
  if (rw) cwt.across(ja, 8, 12);
  w.start(0); symJumps(w); cwt.ready(); w.rl.push_back("icache 1"); w.checkAbi = true; if (cwt.led && !usesSym) w.rl.push_back(execLine(c));
  WStub s1; s1.addr = 0x43000100; s1.sym = T1; s1.at = 0; WStub s2 = s1; s2.addr = 0x43000200; s2.sym = T2; if (usesSym) { w.stubs.push_back(s1); w.stubs.push_back(s2); }
  // run: a jump to a symbolic target ends the run there
  auto& M = *c.M; c.phase = 4; int left = 0; w.addReplay(); M.trap = [&](Machine& m) -> bool { if (m.pc == RETADDR) { m.stopped = true; return true; } if (usesSym && m.pc == 0x43000100) { left = 3; m.stopped = true; return true; } if (usesSym && m.pc == 0x43000200) { left = 4; m.stopped = true; return true; } return false; };
  V taken = js[0].taken; if (k.kind == 3) taken = V();
  M.steps = 0; M.run(0, 4000); c.st.machSteps += M.steps; c.phase = 5; w.nextStub = w.stubs.size();
  // which site is the first one that jumps: all sites test the same condition, the first one jumps if any does
  int dst = cur[0]; bool tk; if (taken.w) tk = c.E.branch(taken); else { V a = w.in(20, 8), b = w.in(21, 8); if (k.type >= K.c_F_EQUAL && k.type <= K.c_F_LESS_EQUAL) c.E.assume(vnot(vor(fIsNaN(a), fIsNaN(b)))); tk = c.E.branch(c.fcond(k.type, a, b)); }
  std::string res = left ? "symbolic target" : "return"; 
  if (tk && dst >= 3) { if (left != dst) throw PathStop{left ? "the jump goes to an earlier target" : "the jump does not go to its target", 1}; w.checkAbi = false; }
  else { if (left) throw PathStop{tk ? "the jump goes to an earlier target" : "the jump is taken although its condition does not hold", 1}; w.out(0, tk ? cw(dst == 0 ? 0x20 : dst == 1 ? 0x30 : 0x40) : cw(0x10), W); 
    if (!tk) for (int s = 0; s + 1 < nsites; s++) w.out(2 + s, cw(0x50 + s), W); 
    for (int i = 0; i < 5; i++) if (!(i == 2 && k.kind == 4) && !(i < 2 && k.kind == 9) && !(isFast && i == 4)) w.out(10 + i, w.inW(i), W); for (int i = 0; i < 4; i++) if (!(isFast && i >= 2)) w.out(20 + i, w.inW(8 + i), W); }
  if (usesSym) { w.stubs.clear(); w.nextStub = 0; if (tk && dst >= 3) patchLine(w, "leave", {dst == 3 ? T1 : T2}); w.rl.push_back(execLine(c)); }
  w.finish(); }
// calls
static void pcallTask(Ctx& c, int kind, int at, int init, std::vector<int> patches, bool rw, int local, int where = 0) {
  // kind 6 call, 7 tail call, 8 register argument call; targets: 3, 4 symbolic
  WF w(c); placeCode(c, where); CodeWatch cwt(c); c.createCompiler(); c.enter(0, 0, 5, 3, 4, 0, local); V T1 = targetSym(c, "T1"), T2 = targetSym(c, "T2"); std::vector<V> av; int ni = 0, nf = 0; for (int i = 0; i < 3; i++) w.ld(rS(i), 8 + i);
  for (int q = 0; q < 4; q++) { int t = at >> (4 * (q + 1)) & 7; if (!t) break; bool d = t == K.c_ARG_TYPE_F64, f = d || t == K.c_ARG_TYPE_F32; if (f) { w.ldf(rFR(nf++), 30 + q, d); av.push_back(w.in(30 + q, d ? 8 : 4)); } else { bool t32 = t == K.c_ARG_TYPE_32; c.emit({L_OP1, t32 ? K.c_MOV32 : K.c_MOV, R(ni++), w.IN(30 + q)}); av.push_back(w.in(30 + q, t32 ? 4 : AI.xl / 8)); } }
  int ty = (kind == 8 ? K.c_CALL_REG_ARG : K.c_CALL) | (kind == 7 ? K.c_CALL_RETURN : 0) | (rw ? K.c_REWRITABLE_JUMP : 0); V j = nnj(c, c.apiH("sljit_emit_call", {c.comp, V(ty, 32), V(at, 32)}), "emit_call"); c.api("sljit_set_target", {j, init == 3 ? T1 : T2});
  if (kind != 7) { c.emit({L_OP1, K.c_MOV, w.OUT(0), R(0)}); for (int i = 0; i < 3; i++) w.st(1 + i, S(i), w.inW(8 + i)); okc(c, c.api("sljit_emit_return_void", {c.comp}), "emit_return_void"); }
  c.generate(); V eo = execOff(c); int cur = init; if (rw) { u64 ja = jumpAddrOf(c, j); for (int p : patches) { V nv = p == 3 ? T1 : T2; c.E.call("sljit_set_jump_addr", {c.E.P(ja), nv, eo}); patchLine(w, "pjump " + hidx(c, j), {nv}); cur = p; } if (jumpAddrOf(c, j) != ja) throw PathStop{"the address of the jump changed", 1}; }
  w.start(0); symJumps(w); cwt.ready(); w.rl.push_back("icache 1"); WStub s; s.addr = 0x43000100; s.sym = cur == 3 ? T1 : T2; s.at = at; s.args = av; s.ret = var("cret", AI.xl); s.tail = kind == 7; w.stubs.push_back(s); if (kind != 7) w.out(0, s.ret, AI.xl / 8);
  w.rl.push_back(execLine(c)); w.addReplay(); w.run(); w.finish(); }
// taken addresses: the target is any address
static void addrTask(Ctx& c, int op, int d, int where, int fill) {
  WF w(c); placeCode(c, where); c.createCompiler(); c.enter(0, 0, 6, 5, 0, 0, d == 9 ? 6000 : 64); auto preset = [&](int k, u64 v) { unsigned W = AI.xl / 8; for (unsigned q = 0; q < W; q++) w.preset[INB + 16 * k + q] = V(v >> (8 * (AI.be ? W - 1 - q : q)) & 255, 8); };
  preset(6, OUTB + 64); preset(7, 40); for (int i = 0; i < 6; i++) w.ld(rR(i), i); for (int i = 0; i < 5; i++) w.ld(rS(i), i == 1 ? 6 : i == 2 ? 7 : 10 + i); V T1 = targetSym(c, "T1", 1);
  std::vector<V> rv(64); for (int i = 0; i < 6; i++) rv[rR(i)] = w.inW(i); for (int i = 0; i < 5; i++) rv[rS(i)] = w.inW(i == 1 ? 6 : i == 2 ? 7 : 10 + i);
  int out = d == 8 ? 24 : 4; Opnd o = constDst(w, d, out); V old; if (op == 2) { if (o.k == OREG) old = rv[o.r1]; else { old = w.inW(20); w.ld(rR(4), 20); c.emit({L_OP1, K.c_MOV, o, R(4)}); rv[rR(4)] = old; } }
  if (fill) { V ov = nnj(c, c.apiH("sljit_emit_jump", {c.comp, V(K.c_JUMP, 32)}), "emit_jump"); okc(c, c.api("tst_filler", {c.comp, cw(fill)}), "op_custom"); c.api("sljit_set_label", {ov, nnj(c, c.apiH("sljit_emit_label", {c.comp}), "emit_label")}); }
  c.emit({L_OP2U, K.c_SUB | K.c_SET_Z, Opnd(), R(1), R(2)}); V fl = vzx(veq(rv[rR(1)], rv[rR(2)]), AI.xl);
  V ov, ow; switch (o.k == OREG ? 0 : d) { case 0: ov = V(o.r1, 32); ow = cw(0); break; case 5: ov = V(K.c_MEM | K.c_SP, 32); ow = cw(16); break; case 6: ov = V(K.c_MEM, 32); ow = cw(OUTB + 16 * out); break; case 7: ov = V(K.c_MEM | rS(1), 32); ow = cw(16 * out - 64); break; case 8: ov = V(K.c_MEM | rS(1) | rS(2) << 8, 32); ow = cw(3); break; default: ov = V(K.c_MEM | K.c_SP, 32); ow = cw(5000); }
  V j = nnj(c, c.apiH("sljit_emit_op_addr", {c.comp, V(op, 32), ov, ow}), "emit_op_addr"); c.api("sljit_set_target", {j, T1}); V res = op == 2 ? vadd(old, T1) : T1;
  { LI i; i.k = L_OPFLAGS; i.op = K.c_MOV; i.d = w.OUT(60); i.type = K.c_EQUAL; c.emit(i); w.out(60, fl, AI.xl / 8); }
  if (o.k == OREG) rv[o.r1] = res; else { if (d == 5 || d == 9) c.emit({L_OP1, K.c_MOV, w.OUT(out), o}); w.out(out, res, AI.xl / 8); }
  for (int i = 0; i < 11; i++) { int r = i < 6 ? rR(i) : rS(i - 6); c.emit({L_OP1, K.c_MOV, w.OUT(70 + i), REG(r)}); w.out(70 + i, rv[r], AI.xl / 8); }
  okc(c, c.api("sljit_emit_return_void", {c.comp}), "emit_return_void"); c.generate(); w.start(0); w.rl.push_back(execLine(c)); w.addReplay(); w.run(); w.finish(); }
// ---------------------------------------------------------------- task lists
static void add(Tasks& T, const std::string& id, TaskFn f, unsigned mp = 200) { T.push_back({id, f, wxCfg() ? mp * 4 : mp}); }
static std::string join(const std::vector<int>& v) { std::string s; for (int x : v) s += std::to_string(x); return s.empty() ? "-" : s; }
static std::vector<JK> jkinds() { std::vector<JK> v{{0, 0}, {5, 0}}; for (int t : {K.c_EQUAL, K.c_NOT_EQUAL, K.c_LESS, K.c_GREATER_EQUAL, K.c_SIG_GREATER, K.c_SIG_LESS_EQUAL, K.c_OVERFLOW, K.c_NOT_OVERFLOW}) v.push_back({1, t}); for (int t : {K.c_EQUAL, K.c_NOT_EQUAL, K.c_LESS, K.c_SIG_GREATER}) v.push_back({2, t}), v.push_back({9, t}); for (int t : {K.c_F_EQUAL, K.c_F_LESS, K.c_ORDERED_LESS, K.c_UNORDERED_OR_GREATER}) v.push_back({3, t}); v.push_back({4, 0}); v.push_back({4, 1}); return v; }
static std::vector<int> callSets() { int W = K.c_ARG_TYPE_W, D = K.c_ARG_TYPE_F64, F = K.c_ARG_TYPE_F32, I = K.c_ARG_TYPE_32; return {AR(W, {}), AR(W, {W}), AR(W, {W, I}), AR(W, {W, D, W}), AR(W, {W, W, W, W}), AR(W, {D, F, D, F})}; }
static void patchTasks(Tasks& T) {
  auto ops = constOps(); u32 n = 0; int nd = 10;
  for (int op : ops) for (int d = 0; d < nd; d++) for (int np = 0; np <= 2; np++) { std::vector<CK> ks{{op, d}}; add(T, "const." + std::to_string(op) + "." + dstN[d] + "." + std::to_string(np), [=](Ctx& c) { constTask(c, ks, np, 0, false); }); n++; }
  int REP = THOROUGH ? 8 : 1; for (int rp = 0; rp < REP; rp++) for (int op : ops) for (int d = 0; d < nd; d++) for (int k = 0; k < 2; k++) { u32 h = hsh(n++); std::vector<CK> ks{{op, d}, {ops[h % ops.size()], (int)(h >> 4) % 7}}; if (k) ks.push_back({ops[(h >> 8) % ops.size()], (int)(h >> 12) % 7}); bool clash = false; for (size_t a = 0; a < ks.size(); a++) for (size_t b = 0; b < a; b++) if (ks[a].dst == ks[b].dst && (ks[a].dst == 5 || ks[a].dst >= 7)) clash = true; if (clash) continue; bool fl = h >> 16 & 1; if (fl) for (auto& x : ks) if (x.dst == 5 || x.dst == 9 || x.dst == 1) { } add(T, "consts." + std::to_string(op) + "." + dstN[d] + "." + std::to_string(n), [=](Ctx& c) { constTask(c, ks, 1 + (h >> 20) % 3, 0, fl); }); }
  for (auto& k : jkinds()) { static const std::vector<std::vector<int>> seqs{{}, {1}, {0}, {2}, {3}, {1, 0}, {3, 1}, {2, 3}, {4, 3}, {0, 4, 2}}; for (int init : {0, 2, 3}) for (auto& s : seqs) { u32 h = hsh(n++); if (!THOROUGH && h % 3 && s.size() != 1) continue; int noise = h >> 4 & 3, fill = (h >> 8) % 3 == 0 ? (h >> 12) % 400 * 8 : 0, ns = s.size() >= 1 && (h >> 20) % 4 == 0 ? 2 : 1; if (noise == 3) noise = 0; if (k.kind == 4 && ns == 2) ns = 1; add(T, std::string("jump.") + jkN[k.kind] + "." + std::to_string(k.type) + "." + std::to_string(init) + "." + join(s), [=](Ctx& c) { jumpTask(c, k, init, s, noise, fill, true, ns); }); } }
  for (int kind : {6, 7, 8}) for (int at : callSets()) { if (kind == 8 && (at >> 4)) { bool fp = false; for (int q = 0; q < 4; q++) { int t = at >> (4 * (q + 1)) & 7; if (t == K.c_ARG_TYPE_F64 || t == K.c_ARG_TYPE_F32) fp = true; } if (fp) continue; } if (kind == 8) continue; for (auto& s : std::vector<std::vector<int>>{{}, {4}, {4, 3}}) { if (kind == 7) { int a2 = at & ~15; add(T, std::string("tail.") + std::to_string(at >> 4) + "." + join(s), [=](Ctx& c) { pcallTask(c, 7, a2, 3, s, true, 24); }); } else add(T, std::string("call.") + std::to_string(at >> 4) + "." + join(s), [=](Ctx& c) { pcallTask(c, kind, at, 3, s, true, 24); }); } }
}
static Reg_ rp("patch", patchTasks);
// the write-xor-execute configuration: patch sites at the boundary of two pages
static void tgtTasks(Tasks& T) {
  u32 n = 0; for (auto& k : jkinds()) for (int noise = 0; noise < 2; noise++) for (int where = 0; where < 4; where++) { u32 h = hsh(n++ + 7777); int fill = noise ? (h >> 12) % 400 * 8 : 0; add(T, std::string("jump.") + jkN[k.kind] + "." + std::to_string(k.type) + "." + std::to_string(noise) + "." + std::to_string(where), [=](Ctx& c) { jumpTask(c, k, 3, {}, noise, fill, false, 1, where); }); }
  for (int where = 0; where < 4; where++) for (int kind : {6, 7}) for (int at : callSets()) { int a2 = kind == 7 ? at & ~15 : at; add(T, std::string(kind == 7 ? "tail." : "call.") + std::to_string(at >> 4) + "." + std::to_string(where), [=](Ctx& c) { pcallTask(c, kind, a2, 3, {}, false, 24, where); }); }
  for (int op = 0; op < 3; op++) for (int d = 0; d < 10; d++) for (int where = 0; where < 4; where++) for (int f = 0; f < 2; f++) { if (op == 2 && f) continue; add(T, "addr." + std::to_string(op) + "." + dstN[d] + "." + std::to_string(where) + "." + std::to_string(f), [=](Ctx& c) { addrTask(c, op, d, where, f * (hsh(n + 10 * where + d) % 300 * 8)); }); } }
static Reg_ rt("tgt", tgtTasks);
