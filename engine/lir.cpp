#include "lir.h"
#include <algorithm>
#include <chrono>
Consts K; ArchInfo AI; std::function<Machine*(Engine&)> mkMachine;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
int rR(int i) { return 1 + i; } int rS(int i) { return AI.nReg - i; } int rFR(int i) { return 1 + i; } int rFS(int i) { return AI.nFreg - i; } int rSP() { return K.c_SP; }
V cw(i64 v) { return V((u64)v, AI.xl); } V c32(i64 v) { return V((u64)v, 32); }
Opnd REG(int n) { Opnd o; o.k = OREG; o.r1 = n; return o; } Opnd FREG(int n) { return REG(n); }
Opnd R(int i) { return REG(rR(i)); } Opnd S(int i) { return REG(rS(i)); }
Opnd IMM(V v) { Opnd o; o.k = OIMM; o.w = v; return o; } Opnd IMM(i64 v) { return IMM(cw(v)); }
Opnd MEM0(V a) { Opnd o; o.k = OMEM0; o.w = a; return o; }
Opnd MEM1(int r, V d) { Opnd o; o.k = OMEM1; o.r1 = r; o.w = d; return o; } Opnd MEM1(int r, i64 d) { return MEM1(r, cw(d)); }
Opnd MEM2(int r, int x, int sh) { Opnd o; o.k = OMEM2; o.r1 = r; o.r2 = x; o.w = cw(sh); return o; }
static V encO(const Opnd& o) { switch (o.k) { case OREG: return V(o.r1, 32); case OIMM: return V(K.c_IMM, 32); case OMEM0: return V(K.c_MEM, 32); case OMEM1: return V(K.c_MEM | o.r1, 32); case OMEM2: return V(K.c_MEM | o.r1 | o.r2 << 8, 32); } return V(0, 32); }
static V encW(const Opnd& o) { if (o.k == ON || o.k == OREG) return cw(0); return o.w; }
static const char* lkn[] = {"op0","op1","op2","op2u","op2r","shift_into","op_flags","select","cmp","jump","label","op2cmpz","mem","mem_update","fmem","fmem_update","fop1","fop2","fop2r","fcmp","fset32","fset64","fcopy","fselect","op_src","local_base","const","op_addr","atomic_load","atomic_store","ijump","op_dst","filler","cur_flags","robuf","simd_mov","simd_replicate","simd_lane_mov","simd_lane_replicate","simd_extend","simd_sign","simd_op2"};
static std::string oStr(const Opnd& o) { std::string rn = o.r1 == K.c_SP ? "SP" : "r" + std::to_string(o.r1); switch (o.k) { case OREG: return rn; case OIMM: return "#" + vstr(o.w, 1); case OMEM0: return "[" + vstr(o.w, 1) + "]"; case OMEM1: return "[" + rn + "+" + vstr(o.w, 1) + "]"; case OMEM2: return "[" + rn + "+r" + std::to_string(o.r2) + "<<" + vstr(o.w, 1) + "]"; } return "-"; }
std::string progStr(const Prog& p) { std::string s; for (auto& i : p) { char b[64]; snprintf(b, 64, "%s(op=0x%x,type=0x%x", lkn[i.k], i.op, i.type); s += b; for (auto* o : {&i.d, &i.a, &i.b, &i.c}) if (o->k != ON) s += "," + oStr(*o); if (i.lab >= 0) s += ",L" + std::to_string(i.lab); s += ") "; } return s; }

// ---------------------------------------------------------------- driving the public API
void Ctx::resetPath() { keep.reset(); obls.clear(); addrVals.clear(); log.clear(); handles.clear(); M.reset(); sp = SpecState(); loc.clear(); labels.clear(); pendingJumps.clear(); labelHandles.clear(); footprint.clear(); init0.clear(); finit0.clear(); initReg.clear(); initFreg.clear(); reg32.assign(64, 0); freg32.assign(64, 0); enterOpts = nVscr = nVsav = 0; curProg.clear(); cmpRegs.clear(); inSpec = false; checkFrame = true; checkValues = true; phase = 0; customReplay = nullptr; replayKind = "segment"; extraReplay.clear(); replayExtra.clear(); alignedLabels.clear(); roBufs.clear(); labA = labB = 0; gm = decltype(gm)(); E.failHook = nullptr; }
V Ctx::HV(V h) { return h; }
V Ctx::api(const std::string& fn, const std::vector<V>& args) { if (GMODE) return gmApi(fn, args); log.push_back({fn, args, -1}); return E.call(fn, args); }
static const u64 HMAGIC = 0x7e57000000ULL;
V Ctx::apiH(const std::string& fn, const std::vector<V>& args) { V r = api(fn, args); handles.push_back(r); log.back().ret = handles.size() - 1; return r; }
static void okOr(Ctx& c, V r, const char* what) { if (c.gmDead()) return; u64 v = c.E.concretize(r); if (v) { char b[160]; snprintf(b, 160, "sljit_%s returned error %lld for a valid call", what, (long long)sx(v, 32)); if (GMODE && v == (u64)(u32)K.c_ERR_UNSUPPORTED) c.gmUnsupported(); throw PathStop{b, v == (u64)(u32)K.c_ERR_UNSUPPORTED ? 4 : 1}; } }
static V nn(Ctx& c, V r, const char* what) { if (c.gmDead()) return r; if (c.E.concretize(r) == 0) { u64 e = c.E.concretize(c.E.call("hz_error", {c.comp})); throw PathStop{std::string("sljit_") + what + " returned NULL for a valid call", sx(e, 32) == K.c_ERR_UNSUPPORTED ? 4 : 1}; } return r; }
void Ctx::createCompiler() { comp = apiH("sljit_create_compiler", {E.P(0)}); nn(*this, comp, "create_compiler"); }
void Ctx::enter(int opts, int at, int scr, int sav, int fscr, int fsav, int local) {
  nScr = scr; nSav = sav; nFscr = fscr; nFsav = fsav; localSize = local; enterOpts = opts;
  V r = api("sljit_emit_enter", {comp, V(opts, 32), V(at, 32), V(scr | fscr << 8 | nVscr << 16, 32), V(sav | fsav << 8 | nVsav << 16, 32), V(local, 32)}); okOr(*this, r, "emit_enter"); }
void Ctx::bindLabel(int n, V l) { labelHandles[n] = l; for (auto& p : pendingJumps) if (p.second == n) api("sljit_set_label", {p.first, l}); }
void Ctx::emit(const LI& i) {
  V O(i.op, 32);
  auto lab = [&](V j) { nn(*this, j, "emit jump"); auto it = labelHandles.find(i.lab); if (it != labelHandles.end()) api("sljit_set_label", {j, it->second}); else pendingJumps.push_back({j, i.lab}); };
  switch (i.k) {
  case L_OP0: okOr(*this, api("sljit_emit_op0", {comp, O}), "emit_op0"); break;
  case L_OP1: okOr(*this, api("sljit_emit_op1", {comp, O, encO(i.d), encW(i.d), encO(i.a), encW(i.a)}), "emit_op1"); break;
  case L_OP2: okOr(*this, api("sljit_emit_op2", {comp, O, encO(i.d), encW(i.d), encO(i.a), encW(i.a), encO(i.b), encW(i.b)}), "emit_op2"); break;
  case L_OP2U: okOr(*this, api("sljit_emit_op2u", {comp, O, encO(i.a), encW(i.a), encO(i.b), encW(i.b)}), "emit_op2u"); break;
  case L_OP2R: okOr(*this, api("sljit_emit_op2r", {comp, O, encO(i.d), encO(i.a), encW(i.a), encO(i.b), encW(i.b)}), "emit_op2r"); break;
  case L_SHINTO: okOr(*this, api("sljit_emit_shift_into", {comp, O, encO(i.d), encO(i.a), encO(i.b), encO(i.c), encW(i.c)}), "emit_shift_into"); break;
  case L_OPFLAGS: okOr(*this, api("sljit_emit_op_flags", {comp, O, encO(i.d), encW(i.d), V(i.type, 32)}), "emit_op_flags"); break;
  case L_SELECT: okOr(*this, api("sljit_emit_select", {comp, V(i.type | i.op, 32), encO(i.d), encO(i.a), encW(i.a), encO(i.b)}), "emit_select"); break;
  case L_FSELECT: okOr(*this, api("sljit_emit_fselect", {comp, V(i.type | i.op, 32), encO(i.d), encO(i.a), encW(i.a), encO(i.b)}), "emit_fselect"); break;
  case L_CMP: lab(apiH("sljit_emit_cmp", {comp, V(i.type | i.op, 32), encO(i.a), encW(i.a), encO(i.b), encW(i.b)})); break;
  case L_FCMP: lab(apiH("sljit_emit_fcmp", {comp, V(i.type | i.op, 32), encO(i.a), encW(i.a), encO(i.b), encW(i.b)})); break;
  case L_JUMP: lab(apiH("sljit_emit_jump", {comp, V(i.type, 32)})); break;
  case L_OP2CMPZ: lab(apiH("sljit_emit_op2cmpz", {comp, V(i.op | i.type, 32), encO(i.d), encW(i.d), encO(i.a), encW(i.a), encO(i.b), encW(i.b)})); break;
  case L_LABEL: { V l = i.op == 1 ? apiH("sljit_emit_aligned_label", {comp, V(i.type, 32), E.P(0)}) : apiH("sljit_emit_label", {comp}); nn(*this, l, "emit_label"); bindLabel(i.lab, l); if (i.op == 1) alignedLabels.push_back({l, i.type}); break; }
  case L_FILL: okOr(*this, api("tst_filler", {comp, cw(i.type)}), "emit_op_custom"); break;
  case L_CURFL: api("sljit_set_current_flags", {comp, O}); break;
  case L_ROBUF: { V l = apiH("tst_robuf", {comp, O, cw(i.type & 1023), cw(i.type >> 10 & 1023), cw(i.type >> 20 & 1023)}); nn(*this, l, "emit_aligned_label"); for (int k = 0; k < 3; k++) { V lk = apiH("tst_robuf_label", {cw(k)}); nn(*this, lk, "buffer label"); bindLabel(i.lab + k, lk); roBufs.push_back({lk, i.op, i.type >> (10 * k) & 1023}); if (k == 0) roFirst = {l, lk}; } break; }
  case L_MEM: okOr(*this, api("sljit_emit_mem", {comp, V(i.op | i.type, 32), V(i.d.r1 | i.r2 << 8, 32), encO(i.a), encW(i.a)}), "emit_mem"); break;
  case L_MEMUPD: okOr(*this, api("sljit_emit_mem_update", {comp, V(i.op | i.type, 32), V(i.d.r1, 32), encO(i.a), encW(i.a)}), "emit_mem_update"); break;
  case L_FMEM: okOr(*this, api("sljit_emit_fmem", {comp, V(i.op | i.type, 32), V(i.d.r1, 32), encO(i.a), encW(i.a)}), "emit_fmem"); break;
  case L_FMEMUPD: okOr(*this, api("sljit_emit_fmem_update", {comp, V(i.op | i.type, 32), V(i.d.r1, 32), encO(i.a), encW(i.a)}), "emit_fmem_update"); break;
  case L_FOP1: okOr(*this, api("sljit_emit_fop1", {comp, O, encO(i.d), encW(i.d), encO(i.a), encW(i.a)}), "emit_fop1"); break;
  case L_FOP2: okOr(*this, api("sljit_emit_fop2", {comp, O, encO(i.d), encW(i.d), encO(i.a), encW(i.a), encO(i.b), encW(i.b)}), "emit_fop2"); break;
  case L_FOP2R: okOr(*this, api("sljit_emit_fop2r", {comp, O, encO(i.d), encO(i.a), encW(i.a), encO(i.b), encW(i.b)}), "emit_fop2r"); break;
  case L_FSET32: okOr(*this, api("sljit_emit_fset32", {comp, encO(i.d), vtrunc(i.a.w, 32)}), "emit_fset32"); break;
  case L_FSET64: okOr(*this, api("sljit_emit_fset64", {comp, encO(i.d), i.a.w}), "emit_fset64"); break;
  case L_FCOPY: okOr(*this, api("sljit_emit_fcopy", {comp, O, encO(i.d), V(i.a.r1 | i.r2 << 8, 32)}), "emit_fcopy"); break;
  case L_OPSRC: okOr(*this, api("sljit_emit_op_src", {comp, O, encO(i.a), encW(i.a)}), "emit_op_src"); break;
  case L_OPDST: okOr(*this, api("sljit_emit_op_dst", {comp, O, encO(i.d), encW(i.d)}), "emit_op_dst"); break;
  case L_LOCALBASE: okOr(*this, api("sljit_get_local_base", {comp, encO(i.d), encW(i.d), i.a.w}), "get_local_base"); break;
  case L_CONST: { V c = apiH("sljit_emit_const", {comp, O, encO(i.d), encW(i.d), i.a.w}); nn(*this, c, "emit_const"); labels[1000 + i.lab] = c; break; }
  case L_OPADDR: { V j = apiH("sljit_emit_op_addr", {comp, O, encO(i.d), encW(i.d)}); lab(j); labels[2000 + i.lab] = j; break; }
  case L_ATOMIC_LD: okOr(*this, api("sljit_emit_atomic_load", {comp, O, encO(i.d), encO(i.a)}), "emit_atomic_load"); break;
  case L_ATOMIC_ST: okOr(*this, api("sljit_emit_atomic_store", {comp, O, encO(i.d), encO(i.a), encO(i.b)}), "emit_atomic_store"); break;
  case L_IJUMP: okOr(*this, api("sljit_emit_ijump", {comp, V(i.type, 32), encO(i.a), encW(i.a)}), "emit_ijump"); break;
  case L_SMOV: okOr(*this, api("sljit_emit_simd_mov", {comp, O, V(i.d.r1, 32), encO(i.a), encW(i.a)}), "emit_simd_mov"); break;
  case L_SREPL: okOr(*this, api("sljit_emit_simd_replicate", {comp, O, V(i.d.r1, 32), encO(i.a), encW(i.a)}), "emit_simd_replicate"); break;
  case L_SLANE: okOr(*this, api("sljit_emit_simd_lane_mov", {comp, O, V(i.d.r1, 32), V(i.r2, 32), encO(i.a), encW(i.a)}), "emit_simd_lane_mov"); break;
  case L_SLREPL: okOr(*this, api("sljit_emit_simd_lane_replicate", {comp, O, V(i.d.r1, 32), V(i.a.r1, 32), V(i.r2, 32)}), "emit_simd_lane_replicate"); break;
  case L_SEXT: okOr(*this, api("sljit_emit_simd_extend", {comp, O, V(i.d.r1, 32), encO(i.a), encW(i.a)}), "emit_simd_extend"); break;
  case L_SSIGN: okOr(*this, api("sljit_emit_simd_sign", {comp, O, V(i.d.r1, 32), encO(i.a), encW(i.a)}), "emit_simd_sign"); break;
  case L_SOP2: okOr(*this, api("sljit_emit_simd_op2", {comp, O, V(i.d.r1, 32), V(i.a.r1, 32), encO(i.b), encW(i.b)}), "emit_simd_op2"); break;
  default: throw PathStop{"emit kind", 2}; } }
void Ctx::emitProg(const Prog& p) { for (auto& i : p) emit(i); }
bool Ctx::generate() {
  if (GMODE) { gmFinish(); throw PathStop{"done", 6}; }
  code = apiH("sljit_generate_code", {comp, V(0, 32), E.P(0)});
  if (E.concretize(code) == 0) { u64 e = E.concretize(E.call("hz_error", {comp})); char b[100]; snprintf(b, 100, "sljit_generate_code failed with error %lld", (long long)sx(e, 32)); throw PathStop{b, 1}; }
  codeLo = E.concretize(E.call("hz_func_addr", {code})) & ~1ULL; codeSize = E.concretize(E.call("hz_code_size", {comp}));
  // the generated code must lie inside the executable allocation
  if (!E.mem.valid(codeLo - E.execOffset, codeSize ? codeSize : 1)) throw PathStop{"reported code size exceeds the executable allocation", 1};
  mirror(); return true; }
// dual mapped code: the executable view shows what was written through the writable one
void Ctx::mirror() { if (!E.execOffset) return; u64 w = codeLo - E.execOffset; E.mem.map(codeLo, codeSize ? codeSize : 1, 1); for (u64 i = 0; i < codeSize; i++) E.mem.setByte(codeLo + i, E.mem.getByte(w + i)); }
u64 Ctx::labelAddr(V h) { return E.concretize(E.call("hz_label_abs_addr", {h})); }

void Ctx::checkLayout() {
  char b[160]; for (auto& a : alignedLabels) { u64 x = labelAddr(a.first); snprintf(b, 160, "label address 0x%llx is not aligned to %d bytes", (unsigned long long)x, 1 << a.second); if (x & ((1 << a.second) - 1)) throw PathStop{b, 1}; }
  if (!roBufs.empty() && labelAddr(roFirst.first) != labelAddr(roFirst.second)) throw PathStop{"the label returned by sljit_emit_aligned_label is not the start of the first buffer", 1};
  int cur = roBufs.empty() ? 0 : roBufs[0].align; for (size_t k = 0; k < roBufs.size(); k++) { u64 x = labelAddr(roBufs[k].lab); if (k) { int z = roBufs[k - 1].size ? __builtin_ctz(roBufs[k - 1].size) : 31; cur = std::min(cur, z); } if (x & ((1 << cur) - 1)) { snprintf(b, 160, "read-only buffer %d at 0x%llx is not aligned to %d bytes", (int)k, (unsigned long long)x, 1 << cur); throw PathStop{b, 1}; } if (x < codeLo || x + roBufs[k].size > codeLo + codeSize) throw PathStop{"read-only buffer is not inside the generated code", 1}; if (k && x < labelAddr(roBufs[k - 1].lab) + roBufs[k - 1].size) throw PathStop{"read-only buffers overlap", 1}; } }
struct ProbeKey { std::string k; }; struct ProbeRes { std::map<int,Loc> loc; i64 localBase; };
static std::map<std::string, ProbeRes> probes; struct NeedProbe { std::string key; int opts, scr, sav, fscr, fsav, local, vscr, vsav; };
static const u64 RET = 0x44000000;
void Ctx::machineEntry(u64 ret) {
  mirror(); M.reset(mkMachine(E)); M->codeLo = codeLo; M->codeHi = codeLo + codeSize; 
  for (int i = 0; i < 40; i++) { M->r[i] = V(0, AI.xl); M->f[i] = V(0, 64); M->fh[i] = V(0, 64); }
  M->init();
  for (int i = 0; i < M->nGpr(); i++) M->r[i] = var("m.r" + std::to_string(i), AI.xl);
  for (int i = 0; i < M->nFpr(); i++) { M->f[i] = var("m.f" + std::to_string(i), 64); M->fh[i] = var("m.fh" + std::to_string(i), 64); }
  M->r[M->spReg()] = V(SP0, AI.xl); M->setReturn(ret); M->pc = E.concretize(E.call("hz_func_addr", {code})); if (AI.isa == "thumb") M->pc &= ~1ULL; }
static void runProbe(Engine& E, const NeedProbe& n) {
  PathWork w; E.startPath(w); Ctx c(E); c.resetPath(); c.createCompiler(); c.nVscr = n.vscr; c.nVsav = n.vsav; c.enter(n.opts, 0, n.scr, n.sav, n.fscr, n.fsav, n.local);
  ProbeRes pr; Prog p; V la = c.apiH("sljit_emit_label", {c.comp});
  std::vector<int> virt; 
  auto reg = [&](int r) { i64 ix = sx(E.concretize(E.call("sljit_get_register_index", {V(K.c_GP_REGISTER, 32), V(r, 32)})), 32); if (ix >= 0) pr.loc[r] = {0, (int)ix, 0}; else virt.push_back(r); };
  for (int i = 0; i < n.scr; i++) reg(rR(i)); for (int i = 0; i < n.sav; i++) reg(rS(i));
  c.emit({L_LOCALBASE, 0, R(0), IMM((i64)0)});
  V lb = c.apiH("sljit_emit_label", {c.comp}); std::vector<V> vl;
  for (int r : virt) { c.emit({L_OP1, K.c_MOV, MEM0(cw(0x60000000)), REG(r)}); vl.push_back(c.apiH("sljit_emit_label", {c.comp})); }
  c.api("sljit_emit_return_void", {c.comp}); c.generate(); c.machineEntry(RET);
  c.M->run(c.labelAddr(la)); V spA = c.M->getSp(); if (!spA.conc()) throw PathStop{"stack pointer not concrete", 2};
  if (n.local > 0) { c.M->run(c.labelAddr(lb)); V v = c.M->r[pr.loc[rR(0)].idx]; if (!v.conc()) throw PathStop{"local base not concrete", 2}; pr.localBase = (i64)(v.c - spA.c); } else { c.M->pc = c.labelAddr(lb); pr.localBase = 0; }
  for (size_t k = 0; k < virt.size(); k++) { c.M->stkR.clear(); c.M->run(c.labelAddr(vl[k])); if (c.M->stkR.empty()) throw PathStop{"cannot locate virtual register", 2}; u64 mn = ~0ULL; for (u64 a : c.M->stkR) mn = std::min(mn, a); pr.loc[virt[k]] = {1, 0, (i64)(mn - spA.c)}; }
  probes[n.key] = pr; }
void Ctx::setupLocs() {
  char b[96]; snprintf(b, 96, "%x/%d/%d/%d/%d/%d/%d/%d", enterOpts, nScr, nSav, nFscr, nFsav, localSize, nVscr, nVsav); auto it = probes.find(b);
  if (it == probes.end()) throw NeedProbe{b, enterOpts, nScr, nSav, nFscr, nFsav, localSize, nVscr, nVsav};
  loc = it->second.loc; localsOff = it->second.localBase; }

// ---------------------------------------------------------------- segment execution
static V initRegVal(Ctx& c, int r) {
  std::string nm = (r <= c.nScr ? "R" + std::to_string(r - 1) : "S" + std::to_string(AI.nReg - r));
  if (c.initReg.count(r)) return c.initReg[r];
  if (c.reg32[r] && AI.xl == 64) { V lo = var(nm + ".32", 32); return AI.sext32 ? vsext(lo, 64) : vconcat(var(nm + ".hi", 32), lo); }
  return var(nm, AI.xl); }
void Ctx::specInit() {
  sp = SpecState(); sp.reg.assign(64, V(0, AI.xl)); sp.is32.assign(64, 0); sp.freg.assign(64, V(0, 64)); sp.f32.assign(64, 0);
  for (auto& l : loc) { V v = initRegVal(*this, l.first); sp.reg[l.first] = v; sp.is32[l.first] = reg32[l.first]; init0[l.first] = v; }
  auto fr = [&](int r) { std::string nm = "F" + std::to_string(r); V v = initFreg.count(r) ? initFreg[r] : freg32[r] ? vzext(var(nm + ".32", 32), 64) : var(nm, 64); sp.freg[r] = v; sp.f32[r] = freg32[r]; finit0[r] = v; };
  for (int i = 0; i < nFscr; i++) fr(rFR(i)); for (int i = 0; i < nFsav; i++) fr(rFS(i)); }
int fregIndex(Ctx& c, int r) { static std::map<int,int> cache; auto it = cache.find(r); if (it != cache.end()) return it->second; int ix = (int)sx(c.E.concretize(c.E.call("sljit_get_register_index", {V(K.c_FLOAT_REGISTER, 32), V(r, 32)})), 32); cache[r] = ix; return ix; }
static V getLoc(Ctx& c, const Loc& l) { if (l.kind == 0) return c.M->r[l.idx]; return c.M->load(vadd(c.spA, cw(l.ofs)), AI.xl / 8); }
static void setLoc(Ctx& c, const Loc& l, V v) { if (l.kind == 0) c.M->r[l.idx] = v; else c.M->store(vadd(c.spA, cw(l.ofs)), v, AI.xl / 8); }

void Ctx::runSegment(const Prog& p) {
  // caller has created the compiler and called enter()
  curProg = p; if (!GMODE) setupLocs(); phase = 1;
  if (!GMODE) log.push_back({"INITREGS", {}, -1});
  V lA = apiH("sljit_emit_label", {comp}); emitProg(p); V lB = apiH("sljit_emit_label", {comp});
  if (!GMODE) log.push_back({"DUMPREGS", {}, -1});
  okOr(*this, api("sljit_emit_return_void", {comp}), "emit_return_void"); generate(); phase = 2;
  labA = labelAddr(lA); labB = labelAddr(lB); checkLayout();
  machineEntry(RET); M->run(labA); spA = M->getSp(); if (!spA.conc()) throw PathStop{"stack pointer not concrete at the segment start", 2};
  // arbitrary machine state, with the lir registers bound to symbolic values
  auto cs = M->calleeSaved(); std::set<int> keep(cs.begin(), cs.end()); keep.insert(M->spReg());
  for (int i = 0; i < M->nGpr(); i++) { bool mapped = false; for (auto& l : loc) if (l.second.kind == 0 && l.second.idx == i) mapped = true; if (mapped || keep.count(i)) continue; if (M->r[i].conc() && M->r[i].c == 0) continue; M->r[i] = var("t.r" + std::to_string(i), AI.xl); }
  M->acc.clear(); M->stkW.clear(); M->um.w.clear();
  specInit(); phase = 3;
  for (auto& l : loc) setLoc(*this, l.second, init0[l.first]);
  for (auto& x : finit0) M->setF(fregIndex(*this, x.first), !freg32[x.first], freg32[x.first] ? vext(x.second, 0, 32) : x.second);
  std::vector<V> r0(M->r, M->r + 40), f0(M->f, M->f + 40); auto stk0 = M->stk; M->stkW.clear();
  sp.stk.clear(); for (auto& b : stk0) sp.stk[b.first] = b.second;
  inSpec = true; specRun(p); inSpec = false; phase = 4;
  std::map<T,V> cache;
  M->canon = [&](V a) -> V { auto it = cache.find(a.t); if (it != cache.end()) return it->second; V best = a; u64 av = E.model.eval(a);
    if (av >= STK_LO && av < STK_HI && E.provable(veq(a, V(av, AI.xl)))) best = V(av, AI.xl); else // an address of the frame in symbolic form
    for (auto& c : sp.acc) { u64 d = (av - E.model.eval(c.addr)) & maskw(AI.xl); if (d >= c.n) continue; V y = vadd(c.addr, cw(d)); V q = veq(a, y); if (q.conc() ? q.c : E.provable(q)) { best = y; break; } }
    cache[a.t] = best; return best; };
  M->steps = 0; M->trap = nullptr; M->run(labB); M->canon = nullptr; st.machSteps += M->steps; phase = 5;
  // ---- comparison
  auto rn = [&](int r) { return r <= nScr ? "R" + std::to_string(r - 1) : "S" + std::to_string(AI.nReg - r); };
  V spB = M->getSp(); check(spB.w == spA.w ? veq(spB, spA) : V(0, 1), "stack pointer changed by straight-line code");
  std::set<int> mappedM; std::set<u64> virtBytes;
  for (auto& l : loc) { if (l.second.kind == 0) mappedM.insert(l.second.idx); else for (unsigned k = 0; k < AI.xl / 8; k++) virtBytes.insert(spA.c + l.second.ofs + k);
    if (sp.undefR.count(l.first)) continue;
    V mv = getLoc(*this, l.second), sv = sp.reg[l.first];
    if (sp.is32[l.first] && AI.xl == 64) { check(veq(vtrunc(mv, 32), vtrunc(sv, 32)), "32-bit value of register " + rn(l.first)); if (AI.sext32) check(veq(mv, vsext(vtrunc(mv, 32), 64)), "32-bit result in " + rn(l.first) + " is not in the form 32-bit operations require"); }
    else check(veq(mv, sv), "value of register " + rn(l.first)); }
  for (auto& x : finit0) { if (sp.vec.count(x.first)) continue; int ix = fregIndex(*this, x.first); bool s32 = sp.f32[x.first]; check(veq(M->getF(ix, !s32), s32 ? vext(sp.freg[x.first], 0, 32) : sp.freg[x.first]), "value of float register " + std::to_string(x.first)); }
  for (int i : cs) if (!mappedM.count(i) && !(AI.name == "x86_32" && i == 3)) check(veq(M->r[i], r0[i]), "callee-saved machine register " + std::to_string(i) + " that is not a LIR register changed");
  { std::set<int> mf; for (auto& x : finit0) mf.insert(fregIndex(*this, x.first)); for (int i : M->calleeSavedF()) if (!mf.count(i)) check(veq(M->f[i], f0[i]), "callee-saved float register " + std::to_string(i) + " changed"); }
  // memory: every byte written by either side has the same final value
  auto srd = [&](u64 a) { auto it = sp.stk.find(a); return it != sp.stk.end() ? it->second : UMem::init(V(a, AI.xl)); };
  std::set<u64> sa(sp.stkW.begin(), sp.stkW.end()); for (u64 a : M->stkW) if (a >= spA.c && !virtBytes.count(a) && !(a < spA.c + AI.localsBase)) sa.insert(a);
  for (u64 a : sa) { auto it = M->stk.find(a); V mv = it != M->stk.end() ? it->second : UMem::init(V(a, AI.xl)); char b[80]; snprintf(b, 80, "stack byte at sp+0x%llx", (unsigned long long)(a - spA.c)); check(veq(mv, srd(a)), b); }
  std::set<T> ua; std::vector<V> uav; auto addA = [&](V a) { T t = TM.asT(a); if (ua.insert(t).second) uav.push_back(a); };
  for (auto& b : sp.um.w) addA(b.addr); for (auto& b : M->um.w) addA(b.addr);
  for (V a : uav) check(veq(M->um.rd(a), sp.um.rd(a)), "memory byte at " + vstr(a, 3));
  // every access of the generated code touches only operand bytes
  std::set<T> fp; std::vector<V> fpv; for (auto& a : sp.acc) for (unsigned k = 0; k < a.n; k++) { V x = vadd(a.addr, cw(k)); if (fp.insert(TM.asT(x)).second) fpv.push_back(x); }
  for (auto& a : M->acc) for (unsigned k = 0; k < a.n; k++) { V x = vadd(a.addr, cw(k)); if (fp.count(TM.asT(x))) continue; V ok(0, 1); for (V y : fpv) ok = vor(ok, veq(x, y)); check(ok, std::string("generated code ") + (a.write ? "writes" : "reads") + " memory outside the operands: " + vstr(x, 3)); }
  discharge(); }

// operands of multiplications/divisions that the path condition fixes to one value are replaced by that value
static V sweep(Engine& E, V v) {
  if (v.conc() || !E.solver.hasAbs(v.t)) return v;
  std::set<T> seen; std::vector<T> st{v.t}; std::unordered_map<T,V> memo; bool any = false;
  while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second || !E.solver.hasAbs(t)) continue; const Node x = TM.n[t];
    if (isAbsNode(x)) for (T k : {x.a, x.b}) if (k && TM.n[k].op != O_CONST && !memo.count(k)) { V q = veq(TM.fromT(k), V(E.model.eval(k), TM.n[k].w)); if (q.conc()) continue; auto& sp = E.solver.support(k); bool inpc = false; for (T p : E.pc) { for (u32 y : E.solver.support(p)) if (std::binary_search(sp.begin(), sp.end(), y)) { inpc = true; break; } if (inpc) break; } if (inpc && E.provable(q)) { memo[k] = V(E.model.eval(k), TM.n[k].w); any = true; } }
    for (T k : {x.a, x.b, x.c}) if (k) st.push_back(k); }
  return any ? vrebuild(v.t, memo) : v; }
void Ctx::discharge() {
  for (auto& o : obls) o.cond = sweep(E, o.cond);
  V bad(0, 1); for (auto& o : obls) { st.obl++; if (o.cond.conc()) { st.oblTrivial++; if (!o.cond.c) { violation(o.desc, V(1, 1)); return; } continue; } bad = vor(bad, vnot(o.cond)); }
  if (bad.is(0)) { obls.clear(); return; }
  // prove one by one with cheap grouping
  Model m; int r = E.satisfiable(bad, &m);
  if (r == 0) { obls.clear(); return; }
  if (r < 0) { for (auto& o : obls) { if (o.cond.conc()) continue; int q = E.satisfiable(vnot(o.cond), &m); if (q == 1) { violation(o.desc, vnot(o.cond)); return; } if (q < 0) { E.nUnknown++; st.complete = false; st.note = "solver gave up on: " + o.desc; } } obls.clear(); return; }
  if (E.solver.hasFp(bad.t)) { // the operations were uninterpreted: look for a model with their IEEE meaning
    for (auto& o : obls) { if (o.cond.conc()) continue; V n = vnot(o.cond); if (E.satisfiable(n, &m) == 0) continue; int q = E.solver.exactFp(E.pc, n.t, &m); if (q != 0) { violation(o.desc, n); return; } } obls.clear(); return; }
  for (auto& o : obls) if (!o.cond.conc() && !m.eval(o.cond)) { violation(o.desc, vnot(o.cond)); return; }
  violation("combined obligation", bad); }

V Ctx::samplePref() { V pref(1, 1); for (auto& a : sp.acc) { if (a.addr.conc()) continue; pref = vand(pref, vand(vule(cw(0x60000000), a.addr), vult(a.addr, cw(0x60000000 + 0x8000000)))); } return pref; }
void Ctx::violation(const std::string& d, V cond) {
  Viol v; v.task = taskId; v.desc = d; v.hasReplay = false;
  std::vector<Model> ms; Model m;
  V pref(1, 1); for (auto& a : sp.acc) { if (a.addr.conc()) continue; pref = vand(pref, vand(vule(cw(0x60000000), a.addr), vult(a.addr, cw(0x60000000 + 0x8000000)))); }
  if (cond.t && E.solver.hasFp(cond.t)) { V c2 = vand(cond, pref); if (E.solver.exactFp(E.pc, c2.t, &m) == 1) ms.push_back(m); }
  int r = E.satisfiable(vand(cond, pref), &m); if (r == 1) ms.push_back(m); else { r = E.satisfiable(cond, &m); if (r == 1) ms.push_back(m); }
  if (r == 1 && cond.t) { // more samples: push every free register value away from zero
    u64 sd = 7; for (int k = 0; k < 6; k++) { V ex(1, 1); for (auto& i : init0) if (!i.second.conc()) { sd = sd * 6364136223846793005ULL + 1442695040888963407ULL; unsigned b = (sd >> 33) % AI.xl; ex = vand(ex, vor(veq(vbit(i.second, b), V(sd >> 60, 1)), V(0, 1))); if ((sd >> 50) & 1) continue; } for (auto& i : finit0) if (!i.second.conc()) { sd = sd * 6364136223846793005ULL + 1442695040888963407ULL; V x = vext(i.second, 0, 32); ex = vand(ex, veq(vext(x, 20, 12), V(0x3f0 + ((sd >> 40) & 31), 12))); }
      Model m2; if (E.satisfiable(vand(vand(cond, pref), ex), &m2) == 1) ms.push_back(m2); } }
  for (auto& mm : ms) { try { std::string t = customReplay ? customReplay(mm) : replayText(mm, phase >= 4 || inSpec == false); v.replay += t; v.replay += "====\n"; v.hasReplay = true; } catch (PathStop& s) { v.desc += " (replay not built: " + s.why + ")"; } }
  if (!ms.size()) v.desc += " (no model)";
  viols.push_back(v); reported = true; obls.clear(); throw PathStop{"violation recorded: " + d, 5}; }

std::string Ctx::replayText(Model& m, bool expect) {
  std::string s; char b[200]; auto h = [&](u64 v) { snprintf(b, 200, "%llx", (unsigned long long)v); return std::string(b); };
  m.exact = true; m.memo.clear();
  s += "kind " + replayKind + "\n"; s += "task " + taskId + "\n";
  for (auto& c : log) { if (c.fn.compare(0, 3, "hz_") == 0) continue; s += "call " + c.fn + " " + std::to_string(c.ret); for (V a : c.args) { bool isH = false; if (a.conc() && a.w == AI.xl) for (size_t k = 0; k < handles.size(); k++) if (handles[k].conc() && handles[k].c == a.c && a.c) { s += " h" + std::to_string(k); isH = true; break; } if (!isH) s += " n" + h(a.w < 64 && a.w > 1 ? (u64)sx(m.eval(a), a.w) : m.eval(a)); } s += "\n"; }
  for (auto& i : init0) s += "reg " + std::to_string(i.first) + " " + h(m.eval(i.second)) + "\n";
  for (auto& i : finit0) s += "freg " + std::to_string(i.first) + " " + std::to_string((int)freg32[i.first]) + " " + h(m.eval(i.second)) + "\n";
  std::set<u64> done; for (auto& a : sp.acc) { u64 ad = m.eval(a.addr); for (unsigned k = 0; k < a.n; k++) { u64 x = (ad + k) & maskw(AI.xl); if (done.insert(x).second) s += "mem " + h(x) + " " + h(m.eval(UMem::init(V(x, AI.xl)))) + "\n"; } }
  for (auto& x : sp.stkR) if (done.insert(x).second) { s += "lmem " + h(x - spA.c - localsOff) + " " + h(m.eval(UMem::init(V(x, AI.xl)))) + "\n"; }
  if (phase >= 4) {
    auto hno = [&](V a) { for (size_t k = 0; k < handles.size(); k++) if (handles[k].conc() && handles[k].c == a.c) return (int)k; return -1; }; std::set<u64> skip;
    for (auto& a : addrVals) if (a.mem.w) { u64 x = m.eval(a.mem), y; if (isStk(V(x, AI.xl), y)) { for (unsigned k = 0; k < AI.xl / 8; k++) skip.insert(x + k); continue; } s += "xmeml " + h(x) + " " + std::to_string(hno(a.handle)) + " " + std::to_string((int)a.abs) + "\n"; for (unsigned k = 0; k < AI.xl / 8; k++) skip.insert(x + k); }
    for (auto& l : loc) { if (sp.undefR.count(l.first)) continue; V sv = sp.reg[l.first]; bool isA = false; for (auto& a : addrVals) { if (!a.mem.w && a.reg < 0 && sv.conc() && sv.c == a.addr) { s += "xregl " + std::to_string(l.first) + " " + std::to_string(hno(a.handle)) + " " + std::to_string((int)a.abs) + " 0\n"; isA = true; break; } if (a.reg == l.first) { s += "xregl " + std::to_string(l.first) + " " + std::to_string(hno(a.handle)) + " " + std::to_string((int)a.abs) + " " + h((m.eval(sv) - a.addr) & maskw(AI.xl)) + "\n"; isA = true; break; } } if (isA) continue;
      bool t32 = sp.is32[l.first] && AI.xl == 64; if (sv.t == 0 || true) s += "xreg " + std::to_string(l.first) + " " + h(m.eval(t32 ? (AI.sext32 ? vsext(vtrunc(sv, 32), 64) : vzext(vtrunc(sv, 32), 64)) : sv)) + " " + h(t32 && !AI.sext32 ? 0xffffffffULL : maskw(AI.xl)) + "\n"; }
    for (auto& x : finit0) if (!sp.vec.count(x.first)) s += "xfreg " + std::to_string(x.first) + " " + std::to_string((int)sp.f32[x.first]) + " " + h(m.eval(sp.f32[x.first] ? vext(sp.freg[x.first], 0, 32) : sp.freg[x.first])) + "\n";
    std::map<u64,u64> fm; for (auto& w : sp.um.w) fm[m.eval(w.addr)] = m.eval(w.val); for (auto& x : fm) if (!skip.count(x.first)) s += "xmem " + h(x.first) + " " + h(x.second) + "\n";
    for (u64 a : sp.stkW) if (!skip.count(a)) s += "xlmem " + h(a - spA.c - localsOff) + " " + h(m.eval(sp.stk[a])) + "\n"; }
  for (auto& e : replayExtra) s += e + "\n";
  return s; }

// ---------------------------------------------------------------- specification of LIR
void Ctx::assumeAddr(V a, unsigned n, unsigned al) {
  u64 x; if (isStk(a, x)) { if (x < spA.c + localsOff || x + n > spA.c + localsOff + localSize) throw PathStop{"task error: local access outside the locals area", 2}; return; }
  V end = vadd(a, cw(n - 1)); E.assume(vule(a, end)); // no wrap around
  E.assume(vor(vult(end, cw(STK_LO - 64)), vule(cw(STK_HI + 64), a)));
  E.assume(vor(vult(end, cw(codeLo - 64)), vule(cw(codeLo + codeSize + 64), a)));
  if (al > 1) E.assume(veq(vext(a, 0, __builtin_ctz(al)), V(0, __builtin_ctz(al)))); }
V Ctx::spAddr(const Opnd& o) {
  if (o.k == OMEM0) return o.w;
  V base = o.r1 == K.c_SP ? vadd(spA, cw(localsOff)) : sp.reg[o.r1];
  if (o.k == OMEM1) return vadd(base, o.w);
  return vadd(base, vshl(sp.reg[o.r2], vand(o.w, cw(3)))); }
V Ctx::spMemRd(V a, unsigned n) {
  assumeAddr(a, n, alignOverride ? alignOverride : n); u64 x; bool stack = isStk(a, x); V r; bool first = true;
  for (unsigned i = 0; i < n; i++) { unsigned o = AI.be ? i : n - 1 - i; V b; if (stack) { sp.stkR.push_back(x + o); auto it = sp.stk.find(x + o); b = it != sp.stk.end() ? it->second : UMem::init(V(x + o, AI.xl)); } else b = sp.um.rd(vadd(a, cw(o))); r = first ? b : vconcat(r, b); first = false; }
  if (!stack) sp.acc.push_back({a, n, r, false}); return r; }
void Ctx::spMemWr(V a, V v, unsigned n) {
  assumeAddr(a, n, alignOverride ? alignOverride : n); u64 x; bool stack = isStk(a, x); v = vtrunc(v, n * 8);
  for (unsigned o = 0; o < n; o++) { V b = vext(v, 8 * (AI.be ? n - 1 - o : o), 8); if (stack) { sp.stk[x + o] = b; sp.stkW.push_back(x + o); } else sp.um.wr(vadd(a, cw(o)), b); }
  if (!stack) sp.acc.push_back({a, n, v, true}); }
V Ctx::spRd(const Opnd& o, unsigned w, bool) {
  switch (o.k) { case OREG: return vtrunc(sp.reg[o.r1], w); case OIMM: return vtrunc(o.w, w); case ON: throw PathStop{"operand", 2}; default: return spMemRd(spAddr(o), w / 8); } }
void Ctx::spWr(const Opnd& o, V v, unsigned w) { // v has width w; w==xl full write, w==32 on a 64-bit target: 32-bit typed
  if (o.k == OREG) sp.undefR.erase(o.r1);
  if (o.k == OREG) { if (w == AI.xl) { sp.reg[o.r1] = v; sp.is32[o.r1] = 0; } else { sp.reg[o.r1] = AI.sext32 ? vsext(v, AI.xl) : vconcat(var("undef.hi", 32), v); sp.is32[o.r1] = 1; } return; }
  if (o.k == ON) return; spMemWr(spAddr(o), v, w / 8); }
V Ctx::cond(int t) {
  if (t == K.c_EQUAL) { if (!sp.zv) throw PathStop{"task error: zero flag undefined", 2}; return sp.z; } if (t == K.c_NOT_EQUAL) { if (!sp.zv) throw PathStop{"task error: zero flag undefined", 2}; return vnot(sp.z); }
  if (!sp.vv || (t & ~1) != sp.vtype) throw PathStop{"task error: variable flag undefined", 2};
  return (t & 1) ? vnot(sp.vc) : sp.vc; }
static int setType(int op) { return (op >> 10) & 0x3f; } 
void Ctx::setFlags(int op, V res, V a, V b, V cin, unsigned w) {
  sp.zv = sp.vv = false;
  if (op & K.c_SET_Z) { sp.zv = true; sp.z = veq(res, V(0, w)); }
  int t = setType(op); if (!t) return; t &= ~1; int base = op & 0xff; sp.vtype = t; sp.vv = true;
  if (base == K.c_ADD) { if (t == K.c_CARRY) sp.vc = vult(res, a); else if (t == K.c_OVERFLOW) sp.vc = vbit(vand(vxor(res, a), vxor(res, b)), w - 1); else sp.vv = false; }
  else if (base == K.c_ADDC) { // carry out of a + b + cin
    V c1 = vult(vadd(a, b), a); V c2 = vult(res, vadd(a, b)); sp.vc = vor(c1, c2); if (t != K.c_CARRY) sp.vv = false; }
  else if (base == K.c_SUB) { if (t == K.c_LESS || t == K.c_CARRY) sp.vc = vult(a, b); else if (t == K.c_GREATER) sp.vc = vult(b, a); else if (t == K.c_SIG_LESS) sp.vc = vslt(a, b); else if (t == K.c_SIG_GREATER) sp.vc = vslt(b, a); else if (t == K.c_OVERFLOW) sp.vc = vbit(vand(vxor(a, b), vxor(a, res)), w - 1); else sp.vv = false; }
  else if (base == K.c_SUBC) { V d = vsub(a, b); sp.vc = vor(vult(a, b), vult(d, vzx(cin, w))); if (t != K.c_CARRY) sp.vv = false; }
  else if (base == K.c_MUL) { if (t == K.c_OVERFLOW) { if (w == 64) sp.vc = vne(vmulhs(a, b), vashr(vmul(a, b), V(63, 64))); else { V p = vmul(vsext(a, 64), vsext(b, 64)); sp.vc = vne(p, vsext(vext(p, 0, 32), 64)); } } else sp.vv = false; }
  else sp.vv = false; }
static V sh1(V x, V s, int dir) { return dir < 0 ? vshl(x, s) : vlshr(x, s); }
void Ctx::specOp(const LI& i) {
  unsigned xl = AI.xl; bool o32 = (i.op & K.c_32) || xl == 32; unsigned w = o32 ? 32 : 64; int base = i.op & 0xff; 
  auto shiftAmt = [&](V s, bool masked, bool imm) { if (masked || imm) return vand(s, V(w - 1, w)); E.assume(vult(s, V(w, w))); return s; };
  switch (i.k) {
  case L_OP0: {
    if (base == K.c_NOP || base == K.c_ENDBR || base == K.c_MEMORY_BARRIER) return; if (base == K.c_SKIP_FRAMES_BEFORE_RETURN) { sp.zv = sp.vv = false; return; }
    int r0 = rR(0), r1 = rR(1); sp.zv = sp.vv = false;
    if (base == K.c_LMUL_UW || base == K.c_LMUL_SW) { V a = sp.reg[r0], b = sp.reg[r1]; V lo, hi; if (xl == 32) { V p = base == K.c_LMUL_UW ? vmul(vzext(a, 64), vzext(b, 64)) : vmul(vsext(a, 64), vsext(b, 64)); lo = vext(p, 0, 32); hi = vext(p, 32, 32); } else { lo = vmul(a, b); hi = base == K.c_LMUL_UW ? vmulhu(a, b) : vmulhs(a, b); } sp.reg[r0] = lo; sp.reg[r1] = hi; sp.is32[r0] = sp.is32[r1] = 0; return; }
    V a = vtrunc(sp.reg[r0], w), b = vtrunc(sp.reg[r1], w); E.assume(vne(b, V(0, w))); bool sg = base == K.c_DIVMOD_SW || base == K.c_DIV_SW; if (sg) E.assume(vnot(vand(veq(b, V(maskw(w), w)), veq(a, V(1ULL << (w - 1), w)))));
    V q = sg ? vsdiv(a, b) : vudiv(a, b), rm = sg ? vsrem(a, b) : vurem(a, b); spWr(REG(r0), q, w); if (base == K.c_DIVMOD_SW || base == K.c_DIVMOD_UW) spWr(REG(r1), rm, w); return; }
  case L_OP1: {
    int b0 = base; unsigned sw = 0; bool sg = false;
    if (b0 == K.c_MOV_U8) sw = 8; else if (b0 == K.c_MOV_S8) sw = 8, sg = true; else if (b0 == K.c_MOV_U16) sw = 16; else if (b0 == K.c_MOV_S16) sw = 16, sg = true; else if (b0 == K.c_MOV_U32) sw = 32; else if (b0 == K.c_MOV_S32) sw = 32, sg = true;
    else if (b0 == (K.c_MOV32 & 0xff)) { w = 32; sw = 32; } else if (b0 == K.c_MOV || b0 == K.c_MOV_P) sw = w;
    if (sw) { V v = spRd(i.a, sw); if (i.d.k == OREG) { if (b0 == K.c_MOV_U32 || b0 == K.c_MOV_S32) w = xl; spWr(i.d, sg ? vsxt(v, w) : vzx(v, w), w); } else spMemWr(spAddr(i.d), v, sw / 8); return; }
    sp.zv = sp.vv = false;
    if (b0 == K.c_CLZ || b0 == K.c_CTZ) { V v = spRd(i.a, w); spWr(i.d, b0 == K.c_CLZ ? vclz(v) : vctz(v), w); return; }
    if (b0 == K.c_REV) { spWr(i.d, vbswap(spRd(i.a, w)), w); return; }
    unsigned rw = (b0 == K.c_REV_U16 || b0 == K.c_REV_S16) ? 16 : 32; sg = b0 == K.c_REV_S16 || b0 == K.c_REV_S32; V v = vbswap(spRd(i.a, rw)); if (i.d.k == OREG) spWr(i.d, sg ? vsxt(v, w) : vzx(v, w), w); else spMemWr(spAddr(i.d), v, rw / 8); return; }
  case L_OP2: case L_OP2U: case L_OP2CMPZ: {
    V a = spRd(i.a, w), b = spRd(i.b, w), r, cin(0, 1); bool imm = i.b.k == OIMM;
    if (base == K.c_ADDC || base == K.c_SUBC) cin = cond(K.c_CARRY);
    if (base == K.c_ADD) r = vadd(a, b); else if (base == K.c_ADDC) r = vadd(vadd(a, b), vzx(cin, w)); else if (base == K.c_SUB) r = vsub(a, b); else if (base == K.c_SUBC) r = vsub(vsub(a, b), vzx(cin, w));
    else if (base == K.c_MUL) { r = vmul(a, b); if (w == 32 && (setType(i.op))) { V p = vmul(vsext(a, 64), vsext(b, 64)); r = vext(p, 0, 32); } }
    else if (base == K.c_AND) r = vand(a, b); else if (base == K.c_OR) r = vor(a, b); else if (base == K.c_XOR) r = vxor(a, b);
    else if (base == K.c_SHL || base == K.c_MSHL) r = vshl(a, shiftAmt(b, base == K.c_MSHL, imm)); else if (base == K.c_LSHR || base == K.c_MLSHR) r = vlshr(a, shiftAmt(b, base == K.c_MLSHR, imm)); else if (base == K.c_ASHR || base == K.c_MASHR) r = vashr(a, shiftAmt(b, base == K.c_MASHR, imm));
    else if (base == K.c_ROTL) r = vrotl(a, b); else if (base == K.c_ROTR) r = vrotl(a, vsub(V(0, w), b)); else throw PathStop{"spec op2", 2};
    int fop = i.op; setFlags(fop, r, a, b, cin, w);
    if (i.k == L_OP2CMPZ) { sp.zv = false; }
    if (i.k != L_OP2U) spWr(i.d, r, w);
    if (i.k == L_OP2CMPZ) { bool z = E.branch(veq(r, V(0, w))); takeJump = (i.type & K.c_JUMP_IF_ZERO) ? z : !z; }
    return; }
  case L_OP2R: { V a = spRd(i.a, w), b = spRd(i.b, w); sp.zv = sp.vv = false; if (base == K.c_MULADD) { spWr(i.d, vadd(vtrunc(sp.reg[i.d.r1], w), vmul(a, b)), w); return; } throw PathStop{"spec op2r", 2}; }
  case L_SHINTO: { V a = spRd(i.a, w), b = spRd(i.b, w), s = spRd(i.c, w); bool left = base == K.c_SHL || base == K.c_MSHL; bool mk = base == K.c_MSHL || base == K.c_MLSHR; s = shiftAmt(s, mk, i.c.k == OIMM); if ((i.op & K.c_SHIFT_INTO_NON_ZERO) && i.c.k != OIMM) E.assume(vne(s, V(0, w)));
    V inv = vxor(s, V(w - 1, w)); V r = left ? vor(vshl(a, s), vlshr(vlshr(b, V(1, w)), inv)) : vor(vlshr(a, s), vshl(vshl(b, V(1, w)), inv)); sp.zv = sp.vv = false; spWr(i.d, r, w); return; }
  case L_OPFLAGS: { V c = cond(i.type); int b0 = base; bool mv = b0 == K.c_MOV || b0 == (K.c_MOV32 & 0xff); if (b0 == (K.c_MOV32 & 0xff)) w = 32; V v = vzx(c, w); if (mv) { spWr(i.d, v, w); return; } V a = spRd(i.d, w); V r = b0 == K.c_AND ? vand(a, v) : b0 == K.c_OR ? vor(a, v) : vxor(a, v); sp.vv = false; sp.zv = false; if (i.op & K.c_SET_Z) { sp.zv = true; sp.z = veq(r, V(0, w)); } spWr(i.d, r, w); return; }
  case L_SELECT: { V c = cond(i.type); bool s32 = (i.op & K.c_32) || xl == 32; unsigned ww = s32 ? 32 : 64; V a = spRd(i.a, ww), b = spRd(i.b, ww); spWr(i.d, vite(c, a, b), ww); if ((i.type & ~1) == K.c_CARRY) sp.vv = sp.zv = false; return; }
  case L_CMP: { V a = spRd(i.a, w), b = spRd(i.b, w); int t = i.type & 0xff; V c; int te = t & ~1; if (te == K.c_EQUAL) c = veq(a, b); else if (te == K.c_LESS) c = vult(a, b); else if (te == K.c_GREATER) c = vult(b, a); else if (te == K.c_SIG_LESS) c = vslt(a, b); else c = vslt(b, a); if (t & 1) c = vnot(c); sp.zv = sp.vv = false; takeJump = E.branch(c); return; }
  case L_JUMP: { int t = i.type & 0xff; takeJump = t == K.c_JUMP ? true : E.branch(cond(t)); return; }
  case L_LABEL: case L_FILL: case L_CURFL: case L_ROBUF: return;
  case L_OPADDR: { u64 ad = E.concretize(E.call(i.op == K.c_MOV_ADDR ? "hz_label_addr" : "hz_label_abs_addr", {labelHandles.at(i.lab)})); V v = cw(ad); addrVals.push_back({ad, labelHandles.at(i.lab), i.op != K.c_MOV_ADDR, i.d.k == OREG ? V() : spAddr(i.d), i.d.k == OREG && i.op == K.c_ADD_ABS_ADDR ? i.d.r1 : -1}); if (i.op == K.c_ADD_ABS_ADDR) v = vadd(spRd(i.d, xl), v); spWr(i.d, v, xl); return; }
  case L_IJUMP: { V v = spRd(i.a, xl); V q = veq(v, cw(E.concretize(E.call("hz_label_addr", {labelHandles.at(i.lab)})))); if (!(q.conc() ? q.c : E.provable(q))) throw PathStop{"task error: indirect jump operand is not the address of its label", 2}; takeJump = true; return; }
  case L_LOCALBASE: spWr(i.d, vadd(vadd(spA, cw(localsOff)), i.a.w), xl); sp.zv = sp.vv = false; return;
  case L_MEM: case L_MEMUPD: {
    int b0 = base; unsigned sw = w; bool sg = false; if (b0 == K.c_MOV_U8) sw = 8; else if (b0 == K.c_MOV_S8) sw = 8, sg = true; else if (b0 == K.c_MOV_U16) sw = 16; else if (b0 == K.c_MOV_S16) sw = 16, sg = true; else if (b0 == K.c_MOV_U32) sw = 32; else if (b0 == K.c_MOV_S32) sw = 32, sg = true; else if (b0 == (K.c_MOV32 & 0xff)) { w = 32; sw = 32; }
    if (b0 == K.c_MOV_U32 || b0 == K.c_MOV_S32) w = xl; bool st_ = i.type & K.c_MEM_STORE; unsigned n = sw / 8;
    if (i.k == L_MEM) { unsigned al = (i.type & K.c_MEM_UNALIGNED) ? 1 : (i.type & K.c_MEM_ALIGNED_16) ? 2 : (i.type & K.c_MEM_ALIGNED_32) ? 4 : n; alignOverride = std::min(al, n); }
    V ad; if (i.k == L_MEMUPD) { V base_ = sp.reg[i.a.r1]; V nb = spAddr(i.a); ad = (i.type & K.c_MEM_POST) ? base_ : nb; V val; if (st_) spMemWr(ad, vtrunc(sp.reg[i.d.r1], sw), n); else { val = spMemRd(ad, n); } sp.reg[i.a.r1] = nb; sp.is32[i.a.r1] = 0; if (!st_) spWr(i.d, sg ? vsxt(val, w) : vzx(val, w), w); }
    else { ad = spAddr(i.a); if (i.r2) { V a2 = vadd(ad, cw(n)); if (st_) { V v1 = vtrunc(sp.reg[i.d.r1], sw), v2 = vtrunc(sp.reg[i.r2], sw); spMemWr(ad, v1, n); spMemWr(a2, v2, n); } else { V v1 = spMemRd(ad, n), v2 = spMemRd(a2, n); spWr(i.d, v1, w); spWr(REG(i.r2), v2, w); } }
      else if (st_) spMemWr(ad, vtrunc(sp.reg[i.d.r1], sw), n); else { V v = spMemRd(ad, n); spWr(i.d, sg ? vsxt(v, w) : vzx(v, w), w); } }
    alignOverride = 0; return; }
  case L_OPSRC: return; // prefetch: no effect
  case L_CONST: { int b0 = base; if (b0 == K.c_MOV) { spWr(i.d, i.a.w, xl); } else if (b0 == (K.c_MOV32 & 0xff)) { if (i.d.k == OREG) spWr(i.d, vtrunc(i.a.w, 32), 32); else spMemWr(spAddr(i.d), vtrunc(i.a.w, 32), 4); } else if (b0 == K.c_MOV_S32) { V v = vtrunc(i.a.w, 32); if (i.d.k == OREG) spWr(i.d, vsxt(v, xl), xl); else spMemWr(spAddr(i.d), v, 4); } else { V v = vtrunc(i.a.w, 8); if (i.d.k == OREG) { unsigned ww = (i.op & K.c_32) ? 32 : xl; spWr(i.d, vzx(v, ww), ww); } else spMemWr(spAddr(i.d), v, 1); } return; }
  default: specOpF(i); } }
static V toF(Ctx& c, V v, bool d) { (void)c; return d ? v : vzext(v, 64); }
V Ctx::spFRd(const Opnd& o, bool d) { if (o.k == OREG) return d ? sp.freg[o.r1] : vext(sp.freg[o.r1], 0, 32); V a = spAddr(o); return spMemRd(a, d ? 8 : 4); }
void Ctx::spFWr(const Opnd& o, bool d, V v) { if (o.k == OREG) { sp.freg[o.r1] = toF(*this, v, d); sp.f32[o.r1] = !d; return; } if (o.k == ON) return; spMemWr(spAddr(o), v, d ? 8 : 4); }
V Ctx::fcond(int t, V a, V b) { // a: left, b: right
  V eq = fcmpEq(a, b), lt = fcmpLt(a, b), gt = fcmpLt(b, a), un = vor(fIsNaN(a), fIsNaN(b)); int e = t & ~1; V c;
  if (e == K.c_F_EQUAL || e == K.c_ORDERED_EQUAL) c = eq; else if (e == K.c_F_LESS || e == K.c_ORDERED_LESS) c = lt; else if (e == K.c_F_GREATER || e == K.c_ORDERED_GREATER) c = gt; else if (e == K.c_UNORDERED) c = un; else if (e == K.c_UNORDERED_OR_EQUAL) c = vor(un, eq); else if (e == K.c_UNORDERED_OR_LESS) c = vor(un, lt); else c = vor(un, gt);
  return (t & 1) ? vnot(c) : c; }
void Ctx::specOpF(const LI& i) {
  unsigned xl = AI.xl; bool d = !(i.op & K.c_32); int base = i.op & 0xff; unsigned fw = d ? 64 : 32;
  switch (i.k) {
  case L_ATOMIC_LD: case L_ATOMIC_ST: {
    int b0 = base; unsigned sw = xl, w = xl; bool sg = false; if (b0 == K.c_MOV_U8) sw = 8; else if (b0 == K.c_MOV_S8) sw = 8, sg = true; else if (b0 == K.c_MOV_U16) sw = 16; else if (b0 == K.c_MOV_S16) sw = 16, sg = true; else if (b0 == K.c_MOV_U32) sw = 32; else if (b0 == K.c_MOV_S32) sw = 32, sg = true; else if (b0 == (K.c_MOV32 & 0xff)) sw = 32; if (b0 == (K.c_MOV32 & 0xff) || (i.op & K.c_32)) w = 32;
    if (i.k == L_ATOMIC_LD) { V v = spMemRd(sp.reg[i.a.r1], sw / 8); spWr(i.d, sg ? vsxt(v, w) : vzx(v, w), w); sp.zv = sp.vv = false; sp.atomSz = sw / 8; return; }
    V a = sp.reg[i.a.r1], nw = vtrunc(sp.reg[i.d.r1], sw); V ok; V mv = spMemRd(a, sw / 8);
    if (AI.isa == "x86" || (AI.variant == "lse" && !(i.op & K.c_ATOMIC_USE_LS))) { V t = sp.reg[i.b.r1]; V tl = vtrunc(t, sw); if (sw < w && !sp.atomSz) E.assume(veq(vtrunc(t, w), sg ? vsxt(tl, w) : vzx(tl, w))); ok = veq(mv, tl); }
    else ok = V(sp.atomSz ? 1 : 0, 1);
    bool o = E.branch(ok); sp.zv = false; sp.vv = true; sp.vtype = K.c_ATOMIC_STORED; sp.vc = V(o, 1); 
    if (o) spMemWr(a, nw, sw / 8); else if (i.b.k == OREG) { sp.undefR.insert(i.b.r1); } sp.atomSz = 0; return; }
  case L_FSET32: spFWr(i.d, false, vtrunc(i.a.w, 32)); return; case L_FSET64: spFWr(i.d, true, i.a.w); return;
  case L_FOP1: {
    if (base == K.c_MOV_F64) { spFWr(i.d, d, spFRd(i.a, d)); return; }
    sp.zv = sp.vv = false;
    if (base == K.c_NEG_F64) { V v = spFRd(i.a, d); spFWr(i.d, d, vxor(v, V(1ULL << (fw - 1), fw))); return; }
    if (base == K.c_ABS_F64) { V v = spFRd(i.a, d); spFWr(i.d, d, vand(v, V(maskw(fw - 1), fw))); return; }
    if (base == K.c_CMP_F64) { V a = spFRd(i.d, d), b = spFRd(i.a, d); int t = setType(i.op) & ~1; sp.vtype = t; sp.vv = true; sp.vc = fcond(t, a, b); 
      if (t == K.c_F_EQUAL || t == K.c_F_LESS || t == K.c_F_GREATER) E.assume(vnot(vor(fIsNaN(a), fIsNaN(b)))); return; }
    if (base == K.c_CONV_F64_FROM_F32) { // 32 flag: to f32 from f64
      if (d) spFWr(i.d, true, fpop("fcvt.d.s", 64, spFRd(i.a, false))); else spFWr(i.d, false, fpop("fcvt.s.d", 32, spFRd(i.a, true))); return; }
    if (base == K.c_CONV_SW_FROM_F64 || base == K.c_CONV_S32_FROM_F64) { unsigned iw = base == K.c_CONV_S32_FROM_F64 ? 32 : xl; V a = spFRd(i.a, d); E.assume(fInRange(a, iw)); V v = fcvtToInt(a, iw, true); if (i.d.k == OREG) spWr(i.d, v, iw); else spMemWr(spAddr(i.d), v, iw / 8); return; }
    bool s32 = base == K.c_CONV_F64_FROM_S32 || base == K.c_CONV_F64_FROM_U32, sg = base == K.c_CONV_F64_FROM_SW || base == K.c_CONV_F64_FROM_S32; unsigned iw = s32 ? 32 : xl; V a = spRd(i.a, iw); 
    if (!sg && AI.name == "x86_32") { V r, hb = vbit(a, 31); // no 64-bit conversions: exact sums and sticky halves
      if (d) { r = fpop("itofs", 64, vzx(vand(a, V(0x7fffffff, 32)), 64)); r = vite(hb, fpop("fadd", 64, r, V(0x41e0000000000000ULL, 64), V(), true), r); }
      else { V y = fpop("itofs", 32, vzx(vor(vlshr(a, V(1, 32)), vand(a, V(1, 32))), 64)); r = vite(hb, fpop("fadd", 32, y, y, V(), true), fpop("itofs", 32, vzx(a, 64))); }
      spFWr(i.d, d, r); return; }
    spFWr(i.d, d, fcvtFromInt(a, fw, sg)); return; }
  case L_FOP2: { V a = spFRd(i.a, d), b = spFRd(i.b, d); sp.zv = sp.vv = false; V r; if (base == K.c_ADD_F64) r = fpop("fadd", fw, a, b, V(), true); else if (base == K.c_SUB_F64) r = fpop("fsub", fw, a, b); else if (base == K.c_MUL_F64) r = fpop("fmul", fw, a, b, V(), true); else r = fpop("fdiv", fw, a, b); spFWr(i.d, d, r); return; }
  case L_FOP2R: { V a = spFRd(i.a, d), b = spFRd(i.b, d); sp.zv = sp.vv = false; spFWr(i.d, d, vconcat(vbit(b, fw - 1), vext(a, 0, fw - 1))); return; }
  case L_FCMP: { V a = spFRd(i.a, d), b = spFRd(i.b, d); int t = i.type & 0xff; if (t >= K.c_F_EQUAL && t <= K.c_F_LESS_EQUAL) E.assume(vnot(vor(fIsNaN(a), fIsNaN(b)))); sp.zv = sp.vv = false; takeJump = E.branch(fcond(t, a, b)); return; }
  case L_FSELECT: { V c = cond(i.type); V a = spFRd(i.a, d), b = spFRd(i.b, d); spFWr(i.d, d, vite(c, a, b)); return; }
  case L_FMEM: { bool st_ = i.type & K.c_MEM_STORE; unsigned n = d ? 8 : 4; unsigned al = (i.type & K.c_MEM_UNALIGNED) ? 1 : (i.type & K.c_MEM_ALIGNED_16) ? 2 : (i.type & K.c_MEM_ALIGNED_32) ? 4 : n; alignOverride = std::min(al, n); V ad = spAddr(i.a); if (st_) spMemWr(ad, spFRd(i.d, d), n); else spFWr(i.d, d, spMemRd(ad, n)); alignOverride = 0; return; }
  case L_FMEMUPD: { bool st_ = i.type & K.c_MEM_STORE; unsigned n = d ? 8 : 4; V b0 = sp.reg[i.a.r1], nb = spAddr(i.a); V ad = (i.type & K.c_MEM_POST) ? b0 : nb; if (st_) spMemWr(ad, spFRd(i.d, d), n); else spFWr(i.d, d, spMemRd(ad, n)); sp.reg[i.a.r1] = nb; return; }
  case L_FCOPY: {
    bool to = base == K.c_COPY_TO_F64; if (!d) { if (to) spFWr(i.d, false, vtrunc(sp.reg[i.a.r1], 32)); else spWr(REG(i.a.r1), vext(sp.freg[i.d.r1], 0, 32), 32); return; }
    if (xl == 64) { if (to) spFWr(i.d, true, sp.reg[i.a.r1]); else spWr(REG(i.a.r1), sp.freg[i.d.r1], 64); return; }
    if (to) { V lo = i.r2 ? sp.reg[i.r2] : vext(sp.freg[i.d.r1], 0, 32); spFWr(i.d, true, vconcat(sp.reg[i.a.r1], lo)); } else { V v = sp.freg[i.d.r1]; spWr(REG(i.a.r1), vext(v, 32, 32), 32); if (i.r2) spWr(REG(i.r2), vext(v, 0, 32), 32); } return; }
  default: specOpV(i); } }
// ---- vector operations: a register is 32 bytes, lane 0 first; bytes above the register size of the operation are undefined afterwards
std::vector<V>& Ctx::spVec(int r) { auto& v = sp.vec[r]; if (v.empty()) v.assign(32, V()); return v; }
std::vector<V> Ctx::spVecMem(V a, unsigned n, unsigned al) {
  assumeAddr(a, n, al ? 1u << al : 1); std::vector<V> b; alignOverride = 1;
  for (unsigned k = 0; k < n; k += 8) { unsigned c = std::min(8u, n - k); V v = spMemRd(k ? vadd(a, cw(k)) : a, c); for (unsigned j = 0; j < c; j++) b.push_back(vext(v, 8 * j, 8)); } alignOverride = 0; return b; }
void Ctx::spVecSet(int r, std::vector<V> b) { b.resize(32); sp.vec[r] = b; }
static V laneV(const std::vector<V>& b, unsigned o, unsigned n) { V r; for (int k = n - 1; k >= 0; k--) { V x = b.at(o + k); if (!x.w) throw PathStop{"task error: undefined vector bytes", 2}; r = (unsigned)k == n - 1 ? x : vconcat(r, x); } return r; }
static void putV(std::vector<V>& b, unsigned o, V v) { if (b.size() < o + v.w / 8) b.resize(o + v.w / 8); for (unsigned k = 0; k < v.w / 8; k++) b[o + k] = vext(v, 8 * k, 8); }
void Ctx::specOpV(const LI& i) {
  int op = i.op; unsigned n = 1u << (op >> 12 & 0x3f), en = 1u << (op >> 18 & 0x3f), e2 = op >> 24 & 0x3f, xl = AI.xl; bool st_ = op & K.c_SIMD_STORE, fl = op & K.c_SIMD_FLOAT; if (AI.be) throw PathStop{"vector operations on a big endian target", 2};
  auto mem = [&](const Opnd& o) { return o.k >= OMEM0; }; auto rdF = [&](int r) { auto it = sp.vec.find(r); return it != sp.vec.end() ? laneV(it->second, 0, en) : vtrunc(sp.freg[r], en * 8); };
  switch (i.k) {
  case L_SMOV: { if (mem(i.a)) { V a = spAddr(i.a); if (!st_) spVecSet(i.d.r1, spVecMem(a, n, e2)); else { auto b = spVec(i.d.r1); assumeAddr(a, n, e2 ? 1u << e2 : 1); alignOverride = 1; for (unsigned k = 0; k < n; k += 8) spMemWr(k ? vadd(a, cw(k)) : a, laneV(b, k, 8), 8); alignOverride = 0; } return; }
    int d = st_ ? i.a.r1 : i.d.r1, s = st_ ? i.d.r1 : i.a.r1; auto b = spVec(s); b.resize(n); spVecSet(d, b); return; }
  case L_SREPL: { V v; if (i.a.k == OIMM) v = fl ? V(0, en * 8) : vtrunc(vsxt(i.a.w, 64), en * 8); else if (i.a.k == OREG) v = fl ? rdF(i.a.r1) : vtrunc(sp.reg[i.a.r1], en * 8); else { alignOverride = 1; v = spMemRd(spAddr(i.a), en); alignOverride = 0; } std::vector<V> b; for (unsigned k = 0; k < n; k += en) putV(b, k, v); spVecSet(i.d.r1, b); return; }
  case L_SLANE: { auto& vr = spVec(i.d.r1); unsigned o = i.r2 * en;
    if (!st_) { V v; if (i.a.k == OIMM) v = vtrunc(vsxt(i.a.w, 64), en * 8); else if (i.a.k == OREG) v = fl ? rdF(i.a.r1) : vtrunc(sp.reg[i.a.r1], en * 8); else { alignOverride = 1; v = spMemRd(spAddr(i.a), en); alignOverride = 0; }
      std::vector<V> b = vr; if (op & K.c_SIMD_LANE_ZERO) for (unsigned k = 0; k < n; k++) b[k] = V(0, 8); for (unsigned k = n; k < 32; k++) b[k] = V(); putV(b, o, v); spVecSet(i.d.r1, b); return; }
    V v = laneV(vr, o, en); if (mem(i.a)) { alignOverride = 1; spMemWr(spAddr(i.a), v, en); alignOverride = 0; return; }
    if (fl) { std::vector<V> b; putV(b, 0, v); if (en == 4) { sp.vec.erase(i.a.r1); sp.freg[i.a.r1] = vzext(v, 64); sp.f32[i.a.r1] = 1; } else { sp.vec.erase(i.a.r1); sp.freg[i.a.r1] = v; sp.f32[i.a.r1] = 0; } return; }
    unsigned w = (op & K.c_32) ? 32 : xl; spWr(i.a, (op & K.c_SIMD_LANE_SIGNED) ? vsxt(v, w) : vzx(v, w), w); return; }
  case L_SLREPL: { V v = laneV(spVec(i.a.r1), i.r2 * en, en); std::vector<V> b; for (unsigned k = 0; k < n; k += en) putV(b, k, v); spVecSet(i.d.r1, b); return; }
  case L_SEXT: { unsigned tn = 1u << e2, cnt = n / tn; std::vector<V> s = mem(i.a) ? std::vector<V>() : spVec(i.a.r1), b; if (mem(i.a)) s = spVecMem(spAddr(i.a), cnt * en, 0); bool sg = op & K.c_SIMD_EXTEND_SIGNED;
    for (unsigned k = 0; k < cnt; k++) { V v = laneV(s, k * en, en); v = fl ? fpop("fcvt.d.s", 64, v) : sg ? vsxt(v, tn * 8) : vzx(v, tn * 8); putV(b, k * tn, v); } spVecSet(i.d.r1, b); return; }
  case L_SSIGN: { auto& s = spVec(i.d.r1); V r; unsigned c = n / en; for (unsigned k = 0; k < c; k++) { V bt = vbit(laneV(s, k * en, en), en * 8 - 1); r = k ? vconcat(bt, r) : bt; } unsigned w = (op & K.c_32) ? 32 : xl; r = vzx(r, w); if (i.a.k == OREG) spWr(i.a, r, w); else { spMemWr(spAddr(i.a), r, w / 8); } return; }
  case L_SOP2: { auto a = spVec(i.a.r1); std::vector<V> b; if (mem(i.b)) b = spVecMem(spAddr(i.b), n, e2); else b = spVec(i.b.r1); std::vector<V> r(n); int o = op & 0xf;
    for (unsigned k = 0; k < n; k++) { V y = laneV(b, k, 1); if (o == K.c_SIMD_OP2_SHUFFLE) { E.assume(vult(y, V(n, 8))); V v = laneV(a, 0, 1); unsigned bits = __builtin_ctz(n); V ix = vext(y, 0, bits); for (unsigned j = 1; j < n; j++) v = vite(veq(ix, V(j, bits)), laneV(a, j, 1), v); r[k] = v; continue; }
      V x = laneV(a, k, 1); r[k] = o == K.c_SIMD_OP2_AND ? vand(x, y) : o == K.c_SIMD_OP2_OR ? vor(x, y) : vxor(x, y); } spVecSet(i.d.r1, r); return; }
  default: throw PathStop{"spec kind", 2}; } }
void Ctx::specRun(const Prog& p) {
  std::map<int,size_t> lab; for (size_t k = 0; k < p.size(); k++) if (p[k].k == L_LABEL) lab[p[k].lab] = k;
  size_t pc = 0; int steps = 0; while (pc < p.size()) { if (++steps > 300) throw PathStop{"spec step bound", 2}; const LI& i = p[pc]; takeJump = false; specOp(i); if (takeJump && (i.k == L_CMP || i.k == L_JUMP || i.k == L_OP2CMPZ || i.k == L_FCMP || i.k == L_IJUMP)) pc = lab.at(i.lab); else pc++; } }

// ---------------------------------------------------------------- exploration
void exploreTask(Engine& E, const Task& t, const RunOpts& o, TaskStat& st, std::vector<Viol>& viols) {
  if (TM.n.size() > 1500000) { TM.reset(); E.solver.reset(); } E.work.clear(); E.model = Model(); E.rng = o.seed * 7919 + 13; st.id = t.id;
  PathWork w0; E.work.push_back(w0); Ctx c(E); c.taskId = t.id; int nv = 0; bool mixed = false;
  while (!E.work.empty()) {
    if (nowS() > o.deadline || st.paths >= t.maxPaths) { st.complete = false; st.note = nowS() > o.deadline ? "time budget" : "path budget"; break; }
    // depth-first; under a path cap pick every third path at random to diversify
    size_t k = E.work.size() - 1; if (st.paths > t.maxPaths / 4 && (st.paths & 1)) { E.rng = E.rng * 6364136223846793005ULL + 1442695040888963407ULL; k = (E.rng >> 33) % E.work.size(); mixed = true; }
    PathWork w = std::move(E.work[k]); E.work.erase(E.work.begin() + k); PathWork wcopy; bool retry = true;
    while (retry) { retry = false; wcopy = w; size_t wk = E.work.size();
      try { E.startPath(w); c.resetPath(); try { t.fn(c); } catch (PathStop& s) { if (s.kind != 6) throw; } if (o.sample && o.sample->empty() && c.phase == 5) { V pref = c.samplePref(); Model m; if (E.satisfiable(pref, &m) == 1) try { *o.sample = c.customReplay ? c.customReplay(m) : c.replayText(m, true); } catch (PathStop&) {} } }
      catch (NeedProbe& n) { E.work.resize(wk); std::vector<PathWork> sv; sv.swap(E.work); try { runProbe(E, n); } catch (PathStop& s) { st.note = "probe failed: " + s.why; st.complete = false; fprintf(stderr, "probe failed: %s\n", s.why.c_str()); return; } sv.swap(E.work); retry = true; w = wcopy; }
      catch (PathStop& s) {
        if (s.kind == 0) st.infeasible++;
        else if (s.kind == 2) { st.complete = false; st.note = s.why; }
        else if (s.kind == 4) { st.note = "unsupported on this target: " + s.why; }
        else if (s.kind == 1 || s.kind == 3) { try { c.violation(s.why, V(1, 1)); } catch (PathStop&) { nv++; } }
        else if (s.kind == 5) nv++; } }
    st.paths++; st.irInst += E.nInst; 
    if (nv >= o.maxViol) { st.note = "stopped after violations"; break; } }
  (void)mixed;
  st.obl = c.st.obl; st.oblTrivial = c.st.oblTrivial; st.machSteps = c.st.machSteps; if (!c.st.complete) { st.complete = false; if (st.note.empty()) st.note = c.st.note; }
  for (auto& v : c.viols) viols.push_back(v); }
