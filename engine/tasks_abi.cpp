#include "whole.h"
int fregIndex(Ctx& c, int r);
static void okc(Ctx& c, V r, const char* what) { if (c.gmDead()) return; u64 v = c.E.concretize(r); if (v) throw PathStop{std::string(what) + " returned an error for a valid call", sx(v, 32) == K.c_ERR_UNSUPPORTED ? 4 : 1}; }
static int AR(int ret, std::vector<int> a) { int v = ret; for (size_t k = 0; k < a.size(); k++) v |= a[k] << (4 * (k + 1)); return v; }
static int W_() { return K.c_ARG_TYPE_W; }
static bool fl(int t) { return (t & 7) == K.c_ARG_TYPE_F64 || (t & 7) == K.c_ARG_TYPE_F32; }
static u32 hsh(u32 x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; x ^= x >> 16; return x; }
struct Frame { int scr, sav, fscr, fsav, local; };
static std::vector<int> locals() { return {0, 1, 4, 8, 12, 16, 24, 40, 64, 100, 248, 256, 504, 512, 1000, 2000, 2040, 2048, 4000, 4072, 4088, 4096, 5000, 8192, 16380, 32600, 32760, 32768, 40000, 65528, 65536, 131072, 262136, 524000}; }
static Frame clampF(int scr, int sav, int fscr, int fsav, int local) { sav = std::min(sav, AI.nSaved); scr = std::max(0, std::min(scr, AI.nReg - sav)); fsav = std::min(fsav, AI.nFsaved); fscr = std::max(0, std::min(fscr, AI.nFreg - fsav)); return {scr, sav, fscr, fsav, local}; }
static void ent(Ctx& c, int opts, int at, const Frame& f) { c.enter(opts, at, f.scr, f.sav, f.fscr, f.fsav, f.local); }
// where sljit_emit_enter puts its arguments
static std::vector<int> argDst(int at) { std::vector<int> v; int ni = 0, ns = 0, nf = 0; for (int k = 0; k < 4; k++) { int t = at >> (4 * (k + 1)) & 15; if (!t) break; if (fl(t)) v.push_back(rFR(nf++)); else { if (t & 8) v.push_back(rR(ni)); else v.push_back(rS(ns++)); ni++; } } return v; }
static Frame need(Frame f, int at) { auto d = argDst(at); int nf = 0, ns = 0, nr = 0; for (size_t k = 0; k < d.size(); k++) { int t = at >> (4 * (k + 1)) & 15; if (fl(t)) nf++; else if (t & 8) nr = std::max(nr, d[k]); else ns++; } if (at & 15) { if (fl(at & 15)) nf = std::max(nf, 1); else nr = std::max(nr, 1); } f.scr = std::max(f.scr, nr); f.sav = std::max(f.sav, ns); f.fscr = std::max(f.fscr, nf); return clampF(f.scr, f.sav, f.fscr, f.fsav, f.local); }
static void clobber(Ctx& c, const Frame& f, int base) {
  for (int i = 0; i < f.scr; i++) c.emit({L_OP1, K.c_MOV, R(i), IMM((i64)(base + i))}); for (int i = 0; i < f.sav; i++) c.emit({L_OP1, K.c_MOV, S(i), IMM((i64)(base + 32 + i))});
  for (int i = 0; i < f.fscr; i++) c.emit({L_FOP1, K.c_MOV_F64, REG(rFR(i)), MEM0(cw(INB + 0x400 + 16 * (i & 7)))}); for (int i = 0; i < f.fsav; i++) c.emit({L_FOP1, K.c_MOV_F64, REG(rFS(i)), MEM0(cw(INB + 0x480 + 16 * (i & 7)))}); }
struct RetK { int type, op; int src; }; // src: 0 R0, 1 last scratch, 2 S0, 3 imm, 4 memory, 5 local, 6 [reg]
static void emitRet(WF& w, const Frame& f, const RetK& r) {
  Ctx& c = w.c; if (!r.type) { okc(c, c.api("sljit_emit_return_void", {c.comp}), "emit_return_void"); return; }
  unsigned W = AI.xl / 8; bool fp = fl(r.type); V v; Opnd o; int src = r.src;
  if (fp) { bool d = r.type == K.c_ARG_TYPE_F64; if (src <= 2) { int fr = src == 0 ? rFR(0) : src == 1 ? rFR(f.fscr - 1) : f.fsav ? rFS(0) : rFR(0); w.ldf(fr, 70, d); v = w.in(70, d ? 8 : 4); o = REG(fr); } else if (src == 5 && f.local >= 8) { w.ldf(rFR(0), 70, d); c.emit({L_FOP1, d ? K.c_MOV_F64 : K.c_MOV_F32, MEM1(rSP(), (i64)((f.local - 8) & ~7)), REG(rFR(0))}); v = w.in(70, d ? 8 : 4); o = MEM1(rSP(), (i64)((f.local - 8) & ~7)); } else { o = MEM0(cw(INB + 16 * 70)); v = w.in(70, d ? 8 : 4); } w.retV = v; }
  else { int b = r.op & 0xff; unsigned n = W; bool sg = true; if (b == K.c_MOV_U8) n = 1, sg = false; else if (b == K.c_MOV_S8) n = 1; else if (b == K.c_MOV_U16) n = 2, sg = false; else if (b == K.c_MOV_S16) n = 2; else if (b == K.c_MOV_U32) n = 4, sg = false; else if (b == K.c_MOV_S32 || (b == (K.c_MOV32 & 0xff))) n = 4;
    bool t32 = r.type == K.c_ARG_TYPE_32; int mv = t32 ? K.c_MOV32 : K.c_MOV; unsigned lw = t32 ? 4 : W; V full = w.in(70, lw);
    if (src == 3) { V i = sw("imm"); o = IMM(i); V x = vtrunc(i, n * 8); E_: v = x; if (n * 8 < AI.xl) v = sg ? vsext(x, AI.xl) : vzext(x, AI.xl); }
    else { if (src == 5 && f.local < (int)W) src = 4; if (src == 1 && f.scr < 2) src = 0; if (src == 2 && !f.sav) src = 0; if (src == 6 && f.scr < 2) src = 4; if ((src == 0 || src == 5) && f.scr < 1) src = 4;
      if (src == 0 || src == 1 || src == 2) { int rg = src == 0 ? rR(0) : src == 1 ? rR(f.scr - 1) : rS(0); c.emit({L_OP1, mv, REG(rg), w.IN(70)}); o = REG(rg); } else if (src == 4) o = w.IN(70); else if (src == 6) { c.emit({L_OP1, K.c_MOV, R(1), IMM((i64)INB)}); o = MEM1(rR(1), 16 * 70); } else { i64 lo = (f.local - W) & ~(i64)(W - 1); c.emit({L_OP1, mv, R(0), w.IN(70)}); c.emit({L_OP1, mv, MEM1(rSP(), lo), R(0)}); o = MEM1(rSP(), lo); }
      bool reg = src <= 2; V x; if (reg) x = vtrunc(full, n * 8); else x = AI.be ? vext(full, (lw - n) * 8, n * 8) : vext(full, 0, n * 8); v = x; if (n * 8 < AI.xl) v = sg ? vsext(x, AI.xl) : vzext(x, AI.xl); }
    w.retV = v; }
  w.retType = r.type; V op = V(fp ? (r.type == K.c_ARG_TYPE_F64 ? K.c_MOV_F64 : K.c_MOV_F32) : r.op, 32);
  V sw_ = o.k == OREG ? cw(0) : o.w; V se = o.k == OREG ? V(o.r1, 32) : o.k == OIMM ? V(K.c_IMM, 32) : o.k == OMEM0 ? V(K.c_MEM, 32) : V(K.c_MEM | o.r1, 32);
  okc(c, c.api("sljit_emit_return", {c.comp, op, se, sw_}), "emit_return"); }
// the arguments' expected values are known only at the entry; they are registered after start()
static void storeArgs(WF& w, int at) { auto d = argDst(at); for (size_t k = 0; k < d.size(); k++) { int t = at >> (4 * (k + 1)) & 7; if (fl(t)) w.c.emit({L_FOP1, t == K.c_ARG_TYPE_F64 ? K.c_MOV_F64 : K.c_MOV_F32, w.OUT(k), REG(d[k])}); else w.c.emit({L_OP1, t == K.c_ARG_TYPE_32 ? K.c_MOV32 : K.c_MOV, w.OUT(k), REG(d[k])}); } }
static void expArgs(WF& w, int at) { auto l = abiLocs(at); for (size_t k = 0; k < l.size(); k++) { int t = l[k].type & 7; w.out(k, w.argIn(l[k]), t == K.c_ARG_TYPE_F64 ? 8 : t == K.c_ARG_TYPE_F32 || t == K.c_ARG_TYPE_32 ? 4 : AI.xl / 8); } }
static void abiTask(Ctx& c, int opts, int at, Frame f, RetK rk, int extra) {
  WF w(c); at = (at & ~15) | rk.type; f = need(f, at); c.createCompiler(); ent(c, opts, at, f); storeArgs(w, at); clobber(c, f, 0x1230);
  V l1, l2; if (f.local) { l1 = c.apiH("sljit_emit_label", {c.comp}); c.emit({L_OP1, K.c_MOV_U8, MEM1(rSP(), 0), IMM((i64)0x5a)}); if (f.local > 1) c.emit({L_OP1, K.c_MOV_U8, MEM1(rSP(), (i64)(f.local - 1)), IMM((i64)0xc3)}); l2 = c.apiH("sljit_emit_label", {c.comp}); c.emit({L_OP1, K.c_MOV_U8, w.OUT(10), MEM1(rSP(), 0)}); w.out(10, V(f.local > 1 ? 0x5a : 0x5a, 8), 1); if (f.local > 1) { c.emit({L_OP1, K.c_MOV_U8, w.OUT(11), MEM1(rSP(), (i64)(f.local - 1))}); w.out(11, V(0xc3, 8), 1); } 
    if (extra == 1) { c.emit({L_LOCALBASE, 0, w.OUT(12), IMM((i64)(f.local / 2))}); } }
  if (extra == 2) c.emit({L_OPDST, K.c_GET_RETURN_ADDRESS, w.OUT(13)});
  if (extra == 3 && f.scr) { c.emit({L_OPDST, K.c_GET_RETURN_ADDRESS, R(0)}); c.emit({L_OP1, K.c_MOV, w.OUT(13), R(0)}); }
  emitRet(w, f, rk); c.generate(); w.start(at); expArgs(w, at); if (extra == 2 || (extra == 3 && f.scr)) { w.out(13, cw(RETADDR), AI.xl / 8); w.rl.push_back("xra " + std::to_string(OUTB + 16 * 13)); }
  auto& M = *c.M; c.phase = 4; w.addReplay();
  if (f.local) { auto tr = M.trap; M.steps = 0; M.run(c.labelAddr(l1)); V sp = M.getSp(); if (!sp.conc()) throw PathStop{"stack pointer not concrete", 2}; auto keep = M.stkW; M.stkW.clear(); M.run(c.labelAddr(l2)); char b[120]; for (u64 a : M.stkW) { if (a < sp.c || a >= SP0) { snprintf(b, 120, "local byte at sp%+lld is outside the frame (frame size %llu)", (long long)(a - sp.c), (unsigned long long)(SP0 - sp.c)); throw PathStop{b, 1}; } for (u64 k : keep) if (k == a) { snprintf(b, 120, "local byte at sp%+lld overlaps an area the prologue uses", (long long)(a - sp.c)); throw PathStop{b, 1}; } }
    std::vector<u64> la(M.stkW); std::sort(la.begin(), la.end()); if (la.size() && la.back() - la.front() != (u64)(f.local - 1)) throw PathStop{"the first and last local byte are not local_size - 1 apart", 1};
    if (extra == 1) { w.out(12, cw(la.front() + f.local / 2), AI.xl / 8); w.rl.push_back("xskip " + std::to_string(OUTB + 16 * 12)); }
    M.stkW.insert(M.stkW.end(), keep.begin(), keep.end()); }
  w.run(); w.finish(); }
#include <algorithm>
static std::vector<RetK> retKinds() { std::vector<RetK> v{{0, 0, 0}}; std::vector<int> wo{K.c_MOV, K.c_MOV_U8, K.c_MOV_S8, K.c_MOV_U16, K.c_MOV_S16}; if (AI.xl == 64) { wo.push_back(K.c_MOV_U32); wo.push_back(K.c_MOV_S32); }
  for (int o : wo) for (int s = 0; s < 7; s++) v.push_back({K.c_ARG_TYPE_W, o, s}); for (int o : {K.c_MOV32, K.c_MOV32_U8, K.c_MOV32_S8, K.c_MOV32_U16, K.c_MOV32_S16}) for (int s = 0; s < 7; s++) v.push_back({K.c_ARG_TYPE_32, o, s}); for (int s = 0; s < 7; s++) v.push_back({K.c_ARG_TYPE_P, K.c_MOV_P, s}); for (int t : {K.c_ARG_TYPE_F64, K.c_ARG_TYPE_F32}) for (int s = 0; s < 6; s++) v.push_back({t, 0, s}); return v; }
static void add(Tasks& T, const std::string& id, TaskFn f, unsigned mp = 300) { T.push_back({id, f, mp}); }
static std::string atS(int at) { std::string s; static const char* n[] = {"", "w", "i", "p", "d", "f", "", "", "", "W", "I", "P"}; for (int k = 1; k <= 4; k++) { int t = at >> (4 * k) & 15; if (t) s += n[t]; } return s.empty() ? "-" : s; }
static std::vector<int> argSets(bool callee) {
  std::vector<int> base{K.c_ARG_TYPE_W, K.c_ARG_TYPE_32, K.c_ARG_TYPE_P, K.c_ARG_TYPE_F64, K.c_ARG_TYPE_F32}; if (callee) { base.push_back(K.c_ARG_TYPE_W_R); base.push_back(K.c_ARG_TYPE_32_R); }
  std::vector<int> v{0}; for (int a : base) { v.push_back(AR(0, {a})); for (int b : base) v.push_back(AR(0, {a, b})); }
  int nb = base.size(); for (int k = 0; k < nb * nb * nb; k++) { int a = base[k % nb], b = base[k / nb % nb], d = base[k / nb / nb]; if (hsh(k) % 4 == 0) v.push_back(AR(0, {a, b, d})); }
  int t3[] = {0, 3, 4}; for (int k = 0; k < 81; k++) { std::vector<int> x; int q = k; for (int i = 0; i < 4; i++, q /= 3) { int t = base[t3[q % 3]]; if (q % 3 == 0) { u32 h = hsh(k * 4 + i) % 6; t = callee ? (h == 0 ? K.c_ARG_TYPE_32 : h == 1 ? K.c_ARG_TYPE_W_R : h == 2 ? K.c_ARG_TYPE_32_R : h == 3 ? K.c_ARG_TYPE_P_R : K.c_ARG_TYPE_W) : (h < 2 ? K.c_ARG_TYPE_32 : h == 2 ? K.c_ARG_TYPE_P : K.c_ARG_TYPE_W); } x.push_back(t); } v.push_back(AR(0, x)); }
  for (int k = 0; k < 16; k++) { std::vector<int> x; for (int i = 0; i < 4; i++) x.push_back(callee ? ((k >> i & 1) ? K.c_ARG_TYPE_W_R : K.c_ARG_TYPE_W) : ((k >> i & 1) ? K.c_ARG_TYPE_32 : K.c_ARG_TYPE_W)); v.push_back(AR(0, x)); }
  return v; }
static void abiTasks(Tasks& T) {
  auto ls = locals(); auto rk = retKinds(); auto frame = [&](u32 h) { u32 a = hsh(h), b = hsh(h + 77777), d = hsh(h + 1234567); static const int sc[] = {0, 1, 2, 3, 4, 5, 6, 8, 12, 26}, sv[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 12}; static const int fs[] = {0, 0, 1, 2, 4, 6, 10, 32}, fv[] = {0, 0, 0, 1, 2, 3, 8, 12}; return clampF(sc[a % 10], sv[a / 10 % 10], fs[b % 8], fv[b / 8 % 8], ls[d % ls.size()]); };
  int REP = THOROUGH ? 16 : 3; u32 n = 0; for (int rp = 0; rp < REP; rp++) for (int at : argSets(true)) { Frame f = frame(n); RetK r = rk[hsh(n + 99) % rk.size()]; int ex = n % 4; add(T, "arg." + atS(at) + "." + std::to_string(n), [=](Ctx& c) { abiTask(c, 0, at, f, r, ex); }); n++; }
  for (int rp = 0; rp < REP; rp++) for (auto& r : rk) { Frame f = frame(n); f.scr = std::max(f.scr, 2); if (fl(r.type)) f.fscr = std::max(f.fscr, 2); f = clampF(f.scr, f.sav, f.fscr, f.fsav, f.local); add(T, "ret." + std::to_string(r.type) + "." + std::to_string(r.op) + "." + std::to_string(r.src) + "." + std::to_string(n), [=](Ctx& c) { abiTask(c, 0, 0, f, r, 0); }); n++; }
  // frame shapes
  for (int sv = 0; sv <= AI.nSaved; sv++) for (int k = 0; k < 6; k++) { u32 h = hsh(sv * 8 + k); static const int fvv[] = {0, 1, 2, 3, 7, 12}; Frame f = clampF((k & 1) ? AI.nReg - sv : (int)(h % 5), sv, (int)(h >> 8) % 7, fvv[k], ls[(h >> 16) % ls.size()]); RetK r = rk[(h >> 4) % rk.size()]; add(T, "frame." + std::to_string(sv) + "." + std::to_string(k), [=](Ctx& c) { abiTask(c, 0, 0, f, r, 1); }); }
  for (int fsv = 0; fsv <= AI.nFsaved; fsv++) for (int sv : {0, 1, 2, 3}) { u32 h = hsh(fsv * 8 + sv + 999); Frame f = clampF(2, sv, (h >> 8) % 7, fsv, ls[(h >> 16) % 20]); add(T, "fframe." + std::to_string(fsv) + "." + std::to_string(sv), [=](Ctx& c) { abiTask(c, 0, 0, f, {0, 0, 0}, 1); }); }
  for (int l : ls) for (int sv : {0, 1, 2, 5}) { Frame f = clampF(3, sv, sv, sv & 1, l); RetK r = rk[hsh(l + sv) % rk.size()]; add(T, "local." + std::to_string(l) + "." + std::to_string(sv), [=](Ctx& c) { abiTask(c, 0, AR(0, {W_(), W_(), K.c_ARG_TYPE_F64}), f, r, 1 + (sv & 1)); }); }
  // return_to: leaves the frame and continues at the given address
  for (int src = 0; src < 6; src++) for (int k = 0; k < 3; k++) { Frame f = clampF(3 + k, 1 + 2 * k, k, k, k * 40 + 16); add(T, "retto." + std::to_string(src) + "." + std::to_string(k), [=](Ctx& c) {
    WF w(c); u64 TG = 0x63000100; c.createCompiler(); ent(c, 0, 0, f); w.preset.clear(); clobber(c, f, 0x99); Opnd o; for (unsigned q = 0; q < AI.xl / 8; q++) w.preset[INB + q] = V((TG >> (8 * (AI.be ? AI.xl / 8 - 1 - q : q))) & 255, 8);
    if (src == 0) { c.emit({L_OP1, K.c_MOV, R(1), w.IN(0)}); o = R(1); } else if (src == 1) { c.emit({L_OP1, K.c_MOV, S(0), w.IN(0)}); o = S(0); } else if (src == 2) o = w.IN(0); else if (src == 3) { c.emit({L_OP1, K.c_MOV, R(1), w.IN(0)}); c.emit({L_OP1, K.c_MOV, MEM1(rSP(), 8), R(1)}); o = MEM1(rSP(), 8); } else if (src == 4) { c.emit({L_OP1, K.c_MOV, S(0), IMM((i64)INB)}); o = MEM1(rS(0), 0); } else o = IMM((i64)TG);
    c.emit({L_OP1, K.c_MOV, R(0), w.IN(1)}); w.retV = w.inW(1); V se = o.k == OREG ? V(o.r1, 32) : o.k == OIMM ? V(K.c_IMM, 32) : o.k == OMEM0 ? V(K.c_MEM, 32) : V(K.c_MEM | o.r1, 32);
    okc(c, c.api("sljit_emit_return_to", {c.comp, se, o.k == OREG ? cw(0) : o.w}), "emit_return_to"); c.generate(); w.rl.push_back("retto 63000100"); w.start(0, 0x43000f00); w.addReplay(); auto& M = *c.M; c.phase = 4; M.trap = [&](Machine& m) { if (m.pc != TG) return false; m.stopped = true; return true; }; M.run(0); c.phase = 5; w.retType = K.c_ARG_TYPE_W; w.finish(); }); } }
static Reg_ ra("abi", abiTasks);

// ---------------------------------------------------------------- calls
struct CallK { int how; bool tail, rw; }; // how: 0 direct, 1.. indirect operand kind, 10 set_label
static void setStub(WF& w, u64 a, int at, std::vector<V> args, V ret, bool tail = false) { WStub s; s.addr = a; s.at = at; s.args = args; s.ret = ret; s.tail = tail; w.stubs.push_back(s); }
// loads the arguments of a call into R0.. / FR0.. from inputs base+k, returns their values
static std::vector<V> loadArgs(WF& w, int at, int base) { std::vector<V> v; int ni = 0, nf = 0; for (int k = 0; k < 4; k++) { int t = at >> (4 * (k + 1)) & 7; if (!t) break; if (fl(t)) { bool d = t == K.c_ARG_TYPE_F64; w.ldf(rFR(nf++), base + k, d); v.push_back(w.in(base + k, d ? 8 : 4)); } else { w.c.emit({L_OP1, t == K.c_ARG_TYPE_32 ? K.c_MOV32 : K.c_MOV, R(ni++), w.IN(base + k)}); v.push_back(w.in(base + k, t == K.c_ARG_TYPE_32 ? 4 : AI.xl / 8)); } } return v; }
static Frame needCall(Frame f, int at) { int ni = 0, nf = 0; for (int k = 0; k < 4; k++) { int t = at >> (4 * (k + 1)) & 7; if (!t) break; if (fl(t)) nf++; else ni++; } int rt = at & 15; if (rt && fl(rt)) nf = std::max(nf, 1); else if (rt) ni = std::max(ni, 1); f.scr = std::max(f.scr, ni); f.fscr = std::max(f.fscr, nf); if (f.scr + f.sav > AI.nReg) f.sav = AI.nReg - f.scr; if (f.fscr + f.fsav > AI.nFreg) f.fsav = AI.nFreg - f.fscr; return f; }
static void emitCall(WF& w, int at, u64 addr, const CallK& k, const Frame& f, int tgtIn) {
  Ctx& c = w.c; int ty = K.c_CALL | (k.tail ? K.c_CALL_RETURN : 0) | (k.rw ? K.c_REWRITABLE_JUMP : 0); unsigned W = AI.xl / 8;
  if (k.how == 0) { V j = c.apiH("sljit_emit_call", {c.comp, V(ty, 32), V(at, 32)}); if (!c.gmDead() && c.E.concretize(j) == 0) throw PathStop{"sljit_emit_call returned NULL", 1}; c.api("sljit_set_target", {j, cw(addr)}); return; }
  ty &= ~K.c_REWRITABLE_JUMP; for (unsigned q = 0; q < W; q++) w.preset[INB + 16 * tgtIn + q] = V((addr >> (8 * (AI.be ? W - 1 - q : q))) & 255, 8);
  V se, so = cw(0); int ni = 0; for (int q = 0; q < 4; q++) { int t = at >> (4 * (q + 1)) & 7; if (!t) break; if (!fl(t)) ni++; } int free_ = ni < f.scr ? ni : -1;
  switch (k.how) {
  case 1: se = V(K.c_IMM, 32); so = cw(addr); break;
  case 2: if (free_ >= 0) { w.ld(rR(free_), tgtIn); se = V(rR(free_), 32); break; } // fall through
  case 3: if (f.sav) { w.ld(rS(0), tgtIn); se = V(rS(0), 32); break; }
  case 4: se = V(K.c_MEM, 32); so = cw(INB + 16 * tgtIn); break;
  case 5: if (f.local >= (int)W && free_ >= 0) { w.ld(rR(free_), tgtIn); i64 lo = (f.local - W) & ~(i64)(W - 1); c.emit({L_OP1, K.c_MOV, MEM1(rSP(), lo), R(free_)}); se = V(K.c_MEM | K.c_SP, 32); so = cw(lo); break; } else { se = V(K.c_MEM, 32); so = cw(INB + 16 * tgtIn); break; }
  case 6: if (f.sav > 1) { c.emit({L_OP1, K.c_MOV, S(1), IMM((i64)(INB + 16 * tgtIn - 0x123c8))}); se = V(K.c_MEM | rS(1), 32); so = cw(0x123c8); break; } else { se = V(K.c_MEM, 32); so = cw(INB + 16 * tgtIn); break; }
  case 7: if (AI.name == "x86_32") { if (f.sav < 2) { se = V(K.c_MEM, 32); so = cw(INB + 16 * tgtIn); break; } c.emit({L_OP1, K.c_MOV, S(0), IMM((i64)(INB + 16 * tgtIn - 64))}); c.emit({L_OP1, K.c_MOV, S(1), IMM((i64)16)}); se = V(K.c_MEM | rS(0) | rS(1) << 8, 32); so = cw(2); break; }
    if (free_ >= 0 && f.scr > free_ + 1) { c.emit({L_OP1, K.c_MOV, R(f.scr - 1), IMM((i64)(INB + 16 * tgtIn - 64))}); c.emit({L_OP1, K.c_MOV, R(free_), IMM((i64)16)}); se = V(K.c_MEM | rR(f.scr - 1) | rR(free_) << 8, 32); so = cw(2); break; }
  default: if (free_ >= 0) { w.ld(rR(f.scr - 1), tgtIn); se = V(rR(f.scr - 1), 32); break; } se = V(K.c_MEM, 32); so = cw(INB + 16 * tgtIn); }
  okc(c, c.api("sljit_emit_icall", {c.comp, V(ty, 32), V(at, 32), se, so}), "emit_icall"); }
static void callTask(Ctx& c, int at, Frame f, CallK k, u64 addr, int ncalls) {
  WF w(c); f = needCall(f, at); c.createCompiler(); int myAt = k.tail ? (at & 15) : 0; ent(c, 0, myAt, f); unsigned W = AI.xl / 8;
  // inputs: 0.. saved registers, 16.. float saved, 32.. locals, 40.. arguments, 60 target
  auto loadSaved = [&] { for (int i = 0; i < f.sav; i++) w.ld(rS(i), i); for (int i = 0; i < f.fsav; i++) w.ldf(rFS(i), 16 + i); };
  int nl = std::min(3, f.local / (int)W); i64 lofs[3] = {0, (i64)(f.local - W) & ~(i64)(W - 1), (i64)(f.local / 2) & ~(i64)(W - 1)};
  for (int q = 0; q < nl; q++) if (f.scr) { w.ld(rR(0), 32 + (q == 2 ? 2 : q)); c.emit({L_OP1, K.c_MOV, MEM1(rSP(), lofs[q]), R(0)}); } if (!f.scr) nl = 0;
  for (int n = 0; n < ncalls; n++) { loadSaved(); bool clob = k.how == 3 || k.how == 6 || k.how == 2 || k.how == 7; auto a = loadArgs(w, at, 40 + 5 * n); emitCall(w, at, addr, k, f, 60);
    int rt = at & 15; std::string nm = "ret" + std::to_string(n); V rv; if (rt) rv = fl(rt) ? var(nm, rt == K.c_ARG_TYPE_F64 ? 64 : 32) : rt == K.c_ARG_TYPE_32 ? var(nm, 32) : var(nm, AI.xl); V rfull = rv; if (rt == K.c_ARG_TYPE_32 && AI.xl == 64) rfull = vsext(rv, 64);
    setStub(w, addr, at, a, rfull, k.tail); if (k.tail) break;
    int o = 70 * 0 + 40 * n; if (rt) { if (fl(rt)) w.stf(o, rFR(0), rt == K.c_ARG_TYPE_F64, rv); else if (rt == K.c_ARG_TYPE_32) w.st32(o, R(0), rv); else w.st(o, R(0), rv); }
    for (int i = 0; i < f.sav; i++) { if (clob && i < 2 && k.how != 1) continue; w.st(o + 1 + i, S(i), w.inW(i)); } for (int i = 0; i < f.fsav; i++) w.stf(o + 14 + i, rFS(i), true, w.in(16 + i, 8));
    for (int q = 0; q < nl; q++) { if (k.how == 5 && q == 1) continue; if (k.how == 5 && lofs[q] == lofs[1]) continue; bool over = false; for (int z = q + 1; z < nl; z++) if (lofs[z] == lofs[q]) over = true; if (over) continue; c.emit({L_OP1, K.c_MOV, w.OUT(o + 30 + q), MEM1(rSP(), lofs[q])}); w.out(o + 30 + q, w.inW(32 + q), W); } }
  if (!k.tail) okc(c, c.api("sljit_emit_return_void", {c.comp}), "emit_return_void");
  c.generate(); w.start(myAt); w.addReplay(); w.run(); w.finish(); }
// a function compiled with SLJIT_ENTER_REG_ARG called from another one
static void regArgTask(Ctx& c, int at, Frame f, Frame g, int keep, int how, bool tail) {
  WF w(c); unsigned W = AI.xl / 8; f = needCall(f, at); if (f.sav < keep) f = clampF(f.scr, keep, f.fscr, f.fsav, f.local); g.sav = std::max(g.sav, keep); g = needCall(g, at); g = clampF(g.scr, g.sav, g.fscr, g.fsav, g.local); if (keep && g.sav < keep) return;
  w.regArgFn = tail; c.createCompiler(); ent(c, tail ? K.c_ENTER_REG_ARG : 0, tail ? at & 15 : 0, f); for (int i = 0; i < f.sav; i++) w.ld(rS(i), i); for (int i = 0; i < f.fsav; i++) w.ldf(rFS(i), 16 + i); bool loc = f.local >= (int)W && f.scr; if (loc) { w.ld(rR(0), 32); c.emit({L_OP1, K.c_MOV, MEM1(rSP(), 0), R(0)}); }
  auto a = loadArgs(w, at, 40); V j, jb; int ty = K.c_CALL_REG_ARG | (tail ? K.c_CALL_RETURN : 0);
  if (how == 0) j = c.apiH("sljit_emit_call", {c.comp, V(ty, 32), V(at, 32)});
  else { int ni = 0; for (int q = 0; q < 4; q++) { int t = at >> (4 * (q + 1)) & 7; if (t && !fl(t)) ni++; } int r = how == 1 ? (ni < f.scr ? rR(ni) : 0) : 0; if (r) { LI q; j = c.apiH("sljit_emit_op_addr", {c.comp, V(K.c_MOV_ADDR, 32), V(r, 32), cw(0)}); okc(c, c.api("sljit_emit_icall", {c.comp, V(ty, 32), V(at, 32), V(r, 32), cw(0)}), "emit_icall"); } else { j = c.apiH("sljit_emit_op_addr", {c.comp, V(K.c_MOV_ADDR, 32), V(K.c_MEM, 32), cw(OUTB + 16 * 100)}); w.expect(OUTB + 16 * 100, cw(0), W); okc(c, c.api("sljit_emit_icall", {c.comp, V(ty, 32), V(at, 32), V(K.c_MEM, 32), cw(OUTB + 16 * 100)}), "emit_icall"); } }
  int rt = at & 15; V rv; if (rt) rv = w.in(80, fl(rt) ? (rt == K.c_ARG_TYPE_F64 ? 8 : 4) : rt == K.c_ARG_TYPE_32 ? 4 : W);
  if (!tail) { if (rt) { if (fl(rt)) w.stf(0, rFR(0), rt == K.c_ARG_TYPE_F64, rv); else if (rt == K.c_ARG_TYPE_32) w.st32(0, R(0), rv); else w.st(0, R(0), rv); }
    for (int i = 0; i < f.sav; i++) w.st(1 + i, S(i), i < keep ? w.inW(90 + i) : w.inW(i)); for (int i = 0; i < f.fsav; i++) w.stf(14 + i, rFS(i), true, w.in(16 + i, 8)); if (loc) { c.emit({L_OP1, K.c_MOV, w.OUT(30), MEM1(rSP(), 0)}); w.out(30, w.inW(32), W); }
    okc(c, c.api("sljit_emit_return_void", {c.comp}), "emit_return_void"); }
  else { if (rt) { w.retType = rt; w.retV = rt == K.c_ARG_TYPE_32 && AI.xl == 64 ? vsext(rv, 64) : rv; } }
  // the callee: all arguments in scratch registers
  V lab = c.apiH("sljit_emit_label", {c.comp}); int at2 = at & 15; for (int k = 0; k < 4; k++) { int t = at >> (4 * (k + 1)) & 7; if (t) at2 |= (fl(t) ? t : t | 8) << (4 * (k + 1)); }
  ent(c, K.c_ENTER_REG_ARG | keep, at2, g); int ni = 0, nf = 0; for (int k = 0; k < 4; k++) { int t = at >> (4 * (k + 1)) & 7; if (!t) break; if (fl(t)) w.stf(40 + k, rFR(nf++), t == K.c_ARG_TYPE_F64, a[k]); else if (t == K.c_ARG_TYPE_32) w.st32(40 + k, R(ni++), a[k]); else w.st(40 + k, R(ni++), a[k]); }
  for (int i = 0; i < keep; i++) w.st(50 + i, S(i), w.inW(i));
  clobber(c, g, 0x777); for (int i = 0; i < keep; i++) w.ld(rS(i), 90 + i); if (g.local) { c.emit({L_OP1, K.c_MOV_U8, MEM1(rSP(), 0), IMM((i64)0x11)}); c.emit({L_OP1, K.c_MOV_U8, MEM1(rSP(), (i64)(g.local - 1)), IMM((i64)0x22)}); }
  if (!rt) okc(c, c.api("sljit_emit_return_void", {c.comp}), "emit_return_void"); else { int op = fl(rt) ? (rt == K.c_ARG_TYPE_F64 ? K.c_MOV_F64 : K.c_MOV_F32) : rt == K.c_ARG_TYPE_32 ? K.c_MOV32 : rt == K.c_ARG_TYPE_P ? K.c_MOV_P : K.c_MOV; okc(c, c.api("sljit_emit_return", {c.comp, V(op, 32), V(K.c_MEM, 32), cw(INB + 16 * 80)}), "emit_return"); }
  c.api("sljit_set_label", {j, lab}); c.generate(); if (w.exp.count(OUTB + 16 * 100)) { w.expect(OUTB + 16 * 100, cw(c.E.concretize(c.E.call("hz_label_addr", {lab}))), W); int hn = -1; for (size_t q = 0; q < c.handles.size(); q++) if (c.handles[q].conc() && c.handles[q].c == lab.c) hn = q; w.rl.push_back("xmeml2 " + std::to_string(OUTB + 16 * 100)); (void)hn; }
  w.start(tail ? at & 15 : 0); if (keep && tail) { auto& M = *c.M; (void)M; for (int i = 0; i < keep; i++) { i64 ix = sx(c.E.concretize(c.E.call("sljit_get_register_index", {V(K.c_GP_REGISTER, 32), V(rS(i), 32)})), 32); (void)ix; } }
  w.addReplay(); w.run(); w.finish(); }
static V codeAddrOf(Ctx& c) { return cw(c.E.concretize(c.E.call("hz_func_addr", {c.code}))); }
static void fastTask(Ctx& c, int dk, int how, Frame f, int nest) {
  WF w(c); unsigned W = AI.xl / 8; c.createCompiler(); ent(c, 0, 0, f); for (int i = 0; i < f.sav; i++) w.ld(rS(i), i); for (int i = 0; i < f.scr; i++) w.ld(rR(i), 32 + i);
  auto dst = [&](int k, int lvl) -> Opnd { switch (k) { case 0: return R(f.scr - 1 - lvl); case 1: return S(f.sav - 1 - lvl); case 2: return MEM1(rSP(), 8 + 16 * lvl); case 3: return w.OUT(60 + lvl); default: return R(1 + lvl); } };
  auto enc = [&](Opnd o, V& a, V& b) { a = o.k == OREG ? V(o.r1, 32) : o.k == OMEM0 ? V(K.c_MEM, 32) : V(K.c_MEM | o.r1, 32); b = o.k == OREG ? cw(0) : o.w; };
  std::set<int> lost; auto noteLost = [&](Opnd o) { if (o.k == OREG) lost.insert(o.r1); }; V j1;
  auto call = [&](int h) { if (h == 0) return c.apiH("sljit_emit_jump", {c.comp, V(K.c_FAST_CALL, 32)}); if (h == 1) return c.apiH("sljit_emit_jump", {c.comp, V(K.c_FAST_CALL | K.c_REWRITABLE_JUMP, 32)}); Opnd r = h == 2 ? R(0) : S(0); if (h == 4) { V j = c.apiH("sljit_emit_op_addr", {c.comp, V(K.c_MOV_ADDR, 32), V(K.c_MEM | K.c_SP, 32), cw(40)}); okc(c, c.api("sljit_emit_ijump", {c.comp, V(K.c_FAST_CALL, 32), V(K.c_MEM | K.c_SP, 32), cw(40)}), "emit_ijump"); return j; } lost.insert(r.r1); V j = c.apiH("sljit_emit_op_addr", {c.comp, V(K.c_MOV_ADDR, 32), V(r.r1, 32), cw(0)}); okc(c, c.api("sljit_emit_ijump", {c.comp, V(K.c_FAST_CALL, 32), V(r.r1, 32), cw(0)}), "emit_ijump"); return j; };
  j1 = call(how); 
  Opnd d0 = dst(dk, 0), d1 = dst(dk, 1); noteLost(d0); if (nest) noteLost(d1);
  c.emit({L_OP1, K.c_MOV, w.OUT(0), IMM((i64)0x31)}); w.out(0, cw(0x31), W);
  V j2; if (nest) { j2 = call(how); c.emit({L_OP1, K.c_MOV, w.OUT(3), IMM((i64)0x35)}); w.out(3, cw(0x35), W); }
  for (int i = 0; i < f.sav; i++) if (!lost.count(rS(i))) w.st(10 + i, S(i), w.inW(i)); for (int i = 0; i < f.scr; i++) if (!lost.count(rR(i))) w.st(30 + i, R(i), w.inW(32 + i));
  okc(c, c.api("sljit_emit_return_void", {c.comp}), "emit_return_void");
  V lab = c.apiH("sljit_emit_label", {c.comp}), a, b; enc(d0, a, b); okc(c, c.api("sljit_emit_op_dst", {c.comp, V(K.c_FAST_ENTER, 32), a, b}), "emit_op_dst");
  c.emit({L_OP1, K.c_MOV, w.OUT(1), IMM((i64)0x32)}); w.out(1, cw(0x32), W); V j3; if (nest) j3 = call(nest == 2 ? 0 : how);
  okc(c, c.api("sljit_emit_op_src", {c.comp, V(K.c_FAST_RETURN, 32), a, b}), "emit_op_src");
  if (nest) { V lab2 = c.apiH("sljit_emit_label", {c.comp}); enc(d1, a, b); okc(c, c.api("sljit_emit_op_dst", {c.comp, V(K.c_FAST_ENTER, 32), a, b}), "emit_op_dst"); c.emit({L_OP1, K.c_MOV, w.OUT(2), IMM((i64)0x33)}); w.out(2, cw(0x33), W); okc(c, c.api("sljit_emit_op_src", {c.comp, V(K.c_FAST_RETURN, 32), a, b}), "emit_op_src"); c.api("sljit_set_label", {j3, lab2}); c.api("sljit_set_label", {j2, lab}); }
  c.api("sljit_set_label", {j1, lab}); c.generate(); w.start(0); if (dk == 3) for (int l = 0; l <= (nest ? 1 : 0); l++) { for (unsigned q = 0; q < W; q++) w.preset[OUTB + 16 * (60 + l) + q] = UMem::init(cw(OUTB + 16 * (60 + l) + q)); }
  w.addReplay(); w.run(); if (c.M->getSp().conc() == false) throw PathStop{"stack pointer", 1}; w.finish(); }
// recursion through a direct call to the function's own entry
static void recTask(Ctx& c, int kind) {
  WF w(c); unsigned W = AI.xl / 8; c.createCompiler(); V lab; int at = AR(K.c_ARG_TYPE_W, {K.c_ARG_TYPE_W, K.c_ARG_TYPE_W});
  Frame f = clampF(3, 2, 0, 0, kind * 24); if (kind < 3) lab = c.apiH("sljit_emit_label", {c.comp}); ent(c, 0, at, f);
  // f(n, x) = n == 0 ? x : f(n - 1, x + n)
  V jz = c.apiH("sljit_emit_cmp", {c.comp, V(K.c_EQUAL, 32), V(rS(0), 32), cw(0), V(K.c_IMM, 32), cw(0)});
  c.emit({L_OP2, K.c_ADD, R(1), S(1), S(0)}); c.emit({L_OP2, K.c_SUB, R(0), S(0), IMM((i64)1)});
  V j = c.apiH("sljit_emit_call", {c.comp, V(K.c_CALL | (kind == 2 ? K.c_CALL_RETURN : 0), 32), V(at, 32)}); c.api("sljit_set_label", {j, lab}); if (kind != 2) okc(c, c.api("sljit_emit_return", {c.comp, V(K.c_MOV, 32), V(rR(0), 32), cw(0)}), "emit_return");
  V l2 = c.apiH("sljit_emit_label", {c.comp}); c.api("sljit_set_label", {jz, l2}); okc(c, c.api("sljit_emit_return", {c.comp, V(K.c_MOV, 32), V(rS(1), 32), cw(0)}), "emit_return");
  c.generate(); w.start(at); auto l = abiLocs(at); V n = w.argIn(l[0]), x = w.argIn(l[1]); w.E.assume(vult(n, cw(4))); w.retType = K.c_ARG_TYPE_W; w.addReplay(); w.run(); w.retV = vadd(x, vlshr(vmul(n, vadd(n, cw(1))), cw(1))); V tri = vite(veq(n, cw(0)), cw(0), vite(veq(n, cw(1)), cw(1), vite(veq(n, cw(2)), cw(3), cw(6)))); w.retV = vadd(x, tri); (void)W; w.finish(); }
static void callTasks(Tasks& T) {
  auto ls = locals(); auto frame = [&](u32 h) { u32 a = hsh(h), b = hsh(h + 77777), d = hsh(h + 1234567); static const int sc[] = {0, 1, 2, 3, 4, 5, 6, 8, 12, 26}, sv[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10}; static const int fs[] = {0, 0, 1, 2, 4, 6, 10, 32}, fv[] = {0, 0, 0, 1, 2, 3, 8, 12}; return clampF(sc[a % 10], sv[a / 10 % 10], fs[b % 8], fv[b / 8 % 8], ls[d % 18]); };
  std::vector<u64> tg{0x63000000}; if (AI.xl == 64) { tg.push_back(0x63000000); tg.push_back(AI.isa == "x86" ? 0x71234567000 : 0x3012345000); }
  int rts[] = {0, K.c_ARG_TYPE_W, K.c_ARG_TYPE_32, K.c_ARG_TYPE_P, K.c_ARG_TYPE_F64, K.c_ARG_TYPE_F32}; u32 n = 0;
  int REP = THOROUGH ? 24 : 6; for (int at0 : argSets(false)) for (int rep = 0; rep < REP; rep++) { int at = at0 | rts[hsh(n * 3 + 1) % 6]; Frame f = frame(n); CallK k; k.how = (rep & 1) ? hsh(n + 5) % 9 : 0; k.tail = hsh(n + 17) % 4 == 0; k.rw = hsh(n + 29) % 3 == 0; u64 a = tg[hsh(n + 41) % tg.size()]; int nc = 1 + hsh(n + 53) % 2; add(T, std::string(k.tail ? "tail." : "call.") + atS(at) + ".k" + std::to_string(k.how) + "." + std::to_string(n), [=](Ctx& c) { callTask(c, at, f, k, a, nc); }); n++; }
  for (int at0 : {0, AR(0, {W_()}), AR(0, {W_(), W_(), W_(), W_()}), AR(0, {K.c_ARG_TYPE_F64, W_(), K.c_ARG_TYPE_F32, K.c_ARG_TYPE_32}), AR(0, {K.c_ARG_TYPE_F64, K.c_ARG_TYPE_F64, K.c_ARG_TYPE_F64, K.c_ARG_TYPE_F64})}) for (int how = 0; how < 9; how++) for (int tl = 0; tl < 2; tl++) { int at = at0 | rts[n % 6]; Frame f = frame(n * 7); CallK k{how, tl != 0, false}; u64 a = tg[n % tg.size()]; add(T, std::string(tl ? "tailk." : "callk.") + std::to_string(how) + "." + atS(at) + "." + std::to_string(n), [=](Ctx& c) { callTask(c, at, f, k, a, 1); }); n++; }
  for (int rp = 0; rp < REP; rp++) for (int at0 : argSets(false)) if (hsh(n++) % 3 == 0) { int at = at0 | rts[hsh(n * 5) % 6]; Frame f = frame(n), g = frame(n + 3333); int keep = hsh(n + 7) % 4; int how = hsh(n + 11) % 3; bool tail = hsh(n + 13) % 4 == 0; if (tail) keep = 0; add(T, std::string(tail ? "regtail." : "regarg.") + atS(at) + ".k" + std::to_string(keep) + "." + std::to_string(how) + "." + std::to_string(n), [=](Ctx& c) { regArgTask(c, at, f, g, keep, how, tail); }); }
  for (int dk = 0; dk < 4; dk++) for (int how = 0; how < 5; how++) for (int nest = 0; nest < 3; nest++) for (int k = 0; k < 2; k++) { Frame f = k ? clampF(AI.nReg - 5, 5, 0, 0, 96) : clampF(5, 3, 0, 0, 64); if (dk == 1 && f.sav < 3) continue; add(T, "fast." + std::to_string(dk) + "." + std::to_string(how) + "." + std::to_string(nest) + "." + std::to_string(k), [=](Ctx& c) { fastTask(c, dk, how, f, nest); }); }
  for (int k = 0; k < 3; k++) add(T, "rec." + std::to_string(k), [=](Ctx& c) { recTask(c, k); }); }
static Reg_ rc("call", callTasks);
