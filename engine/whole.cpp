#include "whole.h"
#include <algorithm>
int fregIndex(Ctx& c, int r);
static int fidx(int n) { return n; }
std::vector<ALoc> abiLocs(int at) {
  std::vector<ALoc> v; int ni = 0, nf = 0, slot = 0; i64 ofs = 0; unsigned W = AI.xl / 8; std::unique_ptr<Machine> m(mkMachine(*EP)); auto ar = m->argRegs(), fr = m->argRegsF(); bool is = true; (void)fidx; int vfp = 0; (void)vfp; bool allF = true;
  for (int k = 0; k < 4; k++) { int t = at >> (4 * (k + 1)) & 15; if (!t) break; int b = t & 7; bool fl = b == K.c_ARG_TYPE_F64 || b == K.c_ARG_TYPE_F32; ALoc l{'r', 0, 0, t};
    if (AI.name == "x86_32") { l.k = 's'; l.ofs = ofs; ofs += b == K.c_ARG_TYPE_F64 ? 8 : 4; }
    else if (AI.name == "mips64el") { if (fl) { l.k = 'f'; l.idx = 12 + slot; } else { l.idx = ar[slot]; } slot++; }
    else if (AI.isa == "ppc" && AI.xl == 64) { if (fl) { l.k = 'f'; l.idx = fr[nf++]; } else l.idx = ar[slot]; slot++; }
    else if (AI.name == "mips32el") { // o32: argument slots of 4 bytes; leading float arguments in f12, f14
      if (b == K.c_ARG_TYPE_F64) slot = (slot + 1) & ~1; l.ofs = 4 * slot; if (fl && allF && k < 2) { l.k = 'f'; l.idx = 12 + 2 * k; } else if (slot < 4) { l.k = 'r'; l.idx = 4 + slot; if (fl) l.k = 'm'; } else l.k = 's'; if (!fl) allF = false; slot += b == K.c_ARG_TYPE_F64 ? 2 : 1; }
    else if ((AI.isa == "arm" || AI.isa == "thumb") && fl) { l.k = 'f'; l.idx = -1; static bool used[16]; if (is) { for (auto& u : used) u = false; is = false; } if (b == K.c_ARG_TYPE_F64) { for (int q = 0; q < 16; q += 2) if (!used[q] && !used[q + 1]) { l.idx = q; used[q] = used[q + 1] = true; break; } } else for (int q = 0; q < 16; q++) if (!used[q]) { l.idx = q; used[q] = true; break; } }
    else if (fl) { l.k = 'f'; l.idx = fr[nf++]; } else l.idx = ar[ni++];
    v.push_back(l); }
  (void)W; return v; }
V WF::memInit(u64 a, unsigned n) { V r; for (unsigned i = 0; i < n; i++) { unsigned o = AI.be ? i : n - 1 - i; V b = UMem::init(V(a + o, AI.xl)); auto it = preset.find(a + o); if (it != preset.end()) b = it->second; r = i ? vconcat(r, b) : b; } return r; }
void WF::expect(u64 a, V v, unsigned n) { v = vtrunc(v, n * 8); for (unsigned o = 0; o < n; o++) exp[a + o] = vext(v, 8 * (AI.be ? n - 1 - o : o), 8); }
static V argVal(Machine& M, const ALoc& l, u64 sp) {
  int b = l.type & 7; bool d = b == K.c_ARG_TYPE_F64, fl = d || b == K.c_ARG_TYPE_F32;
  if (l.k == 's') return M.load(V(sp + l.ofs, AI.xl), d ? 8 : fl ? 4 : AI.xl / 8);
  if (l.k == 'm') { if (!d) return M.r[l.idx]; return AI.be ? vconcat(M.r[l.idx], M.r[l.idx + 1]) : vconcat(M.r[l.idx + 1], M.r[l.idx]); }
  if (l.k == 'f') return M.getArgF(l.idx, d);
  return M.r[l.idx]; }
V WF::argIn(const ALoc& l) { int b = l.type & 7; if (l.k == 'r' && (b == K.c_ARG_TYPE_32) && AI.xl == 64) return vtrunc(entR[l.idx], 32); V v; if (l.k == 'r') v = entR[l.idx]; else v = argVal(*c.M, l, spEntry); return b == K.c_ARG_TYPE_32 ? vtrunc(v, 32) : v; }
void WF::start(int at, u64 ret) {
  c.machineEntry(ret); auto& M = *c.M; spEntry = SP0;
  // the caller passes 32 bit integers in the form the platform requires
  if (AI.sext32 && !regArgFn) for (auto& l : abiLocs(at)) if (l.k == 'r' && (l.type & 7) == K.c_ARG_TYPE_32) M.r[l.idx] = vsext(vtrunc(M.r[l.idx], 32), AI.xl);
  if (AI.isa == "riscv") for (auto& l : abiLocs(at)) if (l.k == 'f' && (l.type & 7) == K.c_ARG_TYPE_F32) M.f[l.idx] = vconcat(V(0xffffffff, 32), vext(M.f[l.idx], 0, 32));
  for (int i = 0; i < 40; i++) entR[i] = M.r[i], entF[i] = M.f[i];
  for (auto& p : preset) M.um.wr(V(p.first, AI.xl), p.second);
  M.stkW.clear(); M.stkR.clear(); M.acc.clear(); }
static bool isF(int t) { return (t & 7) == K.c_ARG_TYPE_F64 || (t & 7) == K.c_ARG_TYPE_F32; }
void WF::run() {
  auto& M = *c.M; c.phase = 4;
  M.trap = [this](Machine& M) -> bool {
    if (M.pc == RETADDR) { ended = true; M.stopped = true; return true; }
    if (nextStub >= stubs.size()) { if (!(M.pc >= 0x43000000 && M.pc < 0x43001000) ) return false; throw PathStop{"more calls than the program makes", 1}; }
    WStub& s = stubs[nextStub]; char b[160];
    if (M.pc != s.addr) { snprintf(b, 160, "call number %d goes to 0x%llx instead of 0x%llx", (int)nextStub, (unsigned long long)M.pc, (unsigned long long)s.addr); throw PathStop{b, 1}; }
    std::string nm = "call " + std::to_string(nextStub); V spv = M.getSp(); if (!spv.conc()) throw PathStop{"stack pointer not concrete at a call", 2};
    u64 spc = spv.c + (AI.isa == "x86" ? AI.xl / 8 : 0); // stack pointer at the call instruction
    u64 ret0 = AI.name == "x86_32" && s.tail ? M.load(spv, 4).conc() ? M.load(spv, 4).c : 0 : 0; unsigned al = AI.xl == 32 && AI.isa != "x86" && AI.isa != "ppc" ? 8 : AI.isa == "s390" ? 8 : 16; if (AI.name != "x86_32" || !s.tail || (ret0 >= M.codeLo && ret0 < M.codeHi)) if (spc & (al - 1)) throw PathStop{nm + ": stack is not aligned at the call", 1};
    auto al_ = abiLocs(s.at); std::set<u64> own;
    for (size_t k = 0; k < al_.size(); k++) { auto& l = al_[k]; int t = l.type & 7; V v = argVal(M, l, spc); V want = s.args[k]; 
      if (l.k == 's') for (int q = 0; q < (t == K.c_ARG_TYPE_F64 ? 8 : 4); q++) own.insert(spc + l.ofs + q);
      if (t == K.c_ARG_TYPE_32) { c.check(veq(vtrunc(v, 32), vtrunc(want, 32)), nm + ": 32-bit argument " + std::to_string(k + 1)); if (AI.sext32 && l.k == 'r') c.check(veq(v, vsext(vtrunc(v, 32), AI.xl)), nm + ": 32-bit argument " + std::to_string(k + 1) + " is not sign extended as the platform requires"); }
      else c.check(veq(v, want), nm + ": argument " + std::to_string(k + 1)); }
    u64 ret = M.popReturn();
    bool emul = s.tail && AI.name == "x86_32" && ret >= M.codeLo && ret < M.codeHi; // stack arguments that do not fit the caller's area: an ordinary call followed by a return
    if (emul) { retType = s.at & 15; retV = s.ret; }
    else if (s.tail) { if (ret != RETADDR) { snprintf(b, 160, "tail call would return to 0x%llx instead of the caller", (unsigned long long)ret); throw PathStop{b, 1}; } V sp2 = M.getSp(); c.check(veq(sp2, cw(SP0)), nm + ": stack pointer at the tail call"); }
    else if (ret < M.codeLo || ret >= M.codeHi) { snprintf(b, 160, "%s returns to 0x%llx which is not generated code", nm.c_str(), (unsigned long long)ret); throw PathStop{b, 1}; }
    if (s.hook) s.hook();
    // everything the convention does not preserve is destroyed
    std::string h = "h" + std::to_string(nextStub); auto cs = M.calleeSaved(); auto cf = M.calleeSavedF();
    for (int i = 0; i < M.nGpr(); i++) if (i != M.spReg() && std::find(cs.begin(), cs.end(), i) == cs.end() && !M.fixedReg(i)) M.r[i] = var(h + ".r" + std::to_string(i), AI.xl);
    for (int i = 0; i < M.nFpr(); i++) { if (std::find(cf.begin(), cf.end(), i) == cf.end()) M.f[i] = var(h + ".f" + std::to_string(i), 64); M.fh[i] = var(h + ".fh" + std::to_string(i), 64); }
    M.havocFlags(h); u64 lo = M.getSp().c; std::vector<u64> ks; for (auto& x : M.stk) if (x.first < lo || own.count(x.first)) ks.push_back(x.first); std::sort(ks.begin(), ks.end()); for (u64 a : ks) M.stk[a] = var(h + ".s" + std::to_string(a), 8);
    int rt = s.at & 15; if (rt) { if (isF(rt)) M.setRetF(rt == K.c_ARG_TYPE_F64, s.ret); else if (rt == K.c_ARG_TYPE_32 && AI.xl == 64) M.r[M.retReg()] = AI.sext32 ? vsext(vtrunc(s.ret, 32), 64) : vconcat(var(h + ".rhi", 32), vtrunc(s.ret, 32)); else M.r[M.retReg()] = s.ret; }
    M.retFixup(ret); nextStub++;
    if (s.tail && !emul) { tailed = true; ended = true; M.stopped = true; retType = 0; return true; }
    M.pc = ret; return true; };
  M.steps = 0; M.run(0, maxSteps); c.st.machSteps += M.steps; c.phase = 5; }
void WF::finish() {
  auto& M = *c.M; addReplay();
  if (nextStub != stubs.size()) throw PathStop{"the function returned before call number " + std::to_string(nextStub), 1};
  for (auto& a : M.um.w) { if (a.addr.conc()) { if (!exp.count(a.addr.c) && !preset.count(a.addr.c)) { char b[100]; snprintf(b, 100, "unexpected write to memory at 0x%llx", (unsigned long long)a.addr.c); c.check(V(0, 1), b); } } }
  for (auto& x : exp) { char b[100]; snprintf(b, 100, "memory byte 0x%llx (%s slot %d)", (unsigned long long)x.first, x.first >= OUTB ? "result" : "input", (int)((x.first - (x.first >= OUTB ? OUTB : INB)) / 16)); c.check(veq(M.um.rd(V(x.first, AI.xl)), x.second), b); }
  if (checkAbi) {
    if (!tailed) c.check(veq(M.getSp(), cw(SP0)), "stack pointer after the return");
    auto cs = M.calleeSaved(); for (int i : cs) if (!destroyed.count(i) && !(regArgFn && AI.name == "x86_32" && i == 3)) c.check(veq(M.r[i], entR[i]), "callee-saved register " + std::to_string(i) + " after the return");
    for (int i : M.calleeSavedF()) c.check(veq(M.f[i], entF[i]), "callee-saved float register " + std::to_string(i) + " after the return");
    auto ok = M.abiWritable(); for (u64 a : M.stkW) if (a >= SP0 && !(a < SP0 + ok)) { char b[100]; snprintf(b, 100, "function writes above its frame at entry sp+0x%llx", (unsigned long long)(a - SP0)); c.check(V(0, 1), b); break; }
    if (retType) { if (isF(retType) && regArgFn) c.check(veq(M.getF(fregIndex(c, K.c_FR0), retType == K.c_ARG_TYPE_F64), retV), "floating point result"); else if (isF(retType)) c.check(veq(M.getRetF(retType == K.c_ARG_TYPE_F64), retV), "floating point result"); else if (retType == K.c_ARG_TYPE_32 && AI.xl == 64) { c.check(veq(vtrunc(M.r[M.retReg()], 32), vtrunc(retV, 32)), "32-bit result"); if (AI.sext32 && !regArgFn) c.check(veq(M.r[M.retReg()], vsext(vtrunc(M.r[M.retReg()], 32), 64)), "32-bit result is not sign extended as the platform requires"); } else c.check(veq(M.r[M.retReg()], retV), "result"); } }
  c.discharge(); }
void WF::addReplay() {
  // replay: run the code through the trampoline with the model's registers, memory and call results
  auto self = std::make_shared<WF>(*this); Ctx* cp = &c;
  c.customReplay = [self, cp](Model& m) { Ctx& c = *cp; auto& w = *self; std::string s; char b[200]; auto h = [&](u64 v) { snprintf(b, 200, "%llx", (unsigned long long)v); return std::string(b); };
    for (auto& p : w.pre) s += p + "\n";
    s += c.replayText(m, false); s += "abi 1\n"; auto& M = *c.M; s += "abiw " + h(M.abiWritable()) + "\n"; if (w.regArgFn) s += "regfn 1\n";
    auto ar = M.argRegs(); if (ar.size() > 8) ar.resize(8); for (size_t k = 0; k < ar.size(); k++) s += "ia " + std::to_string(k) + " " + h(m.eval(w.entR[ar[k]])) + "\n"; auto fr = M.argRegsF(); for (size_t k = 0; k < fr.size() && k < 8; k++) s += "fa " + std::to_string(k) + " " + h(m.eval(w.entF[fr[k]])) + "\n";
    for (u64 a : M.stkR) if (a >= SP0 && a < SP0 + 256) s += "sa " + h(a - SP0) + " " + h(m.eval(UMem::init(V(a, AI.xl)))) + "\n";
    std::set<u64> done; for (auto& a : M.acc) if (a.addr.conc()) for (unsigned k = 0; k < a.n; k++) if (done.insert(a.addr.c + k).second) { auto it = w.preset.find(a.addr.c + k); V v = it != w.preset.end() ? it->second : UMem::init(V(a.addr.c + k, AI.xl)); s += "mem " + h(a.addr.c + k) + " " + h(m.eval(v)) + "\n"; }
    for (auto& x : w.exp) s += "xmem " + h(x.first) + " " + h(m.eval(x.second)) + "\n";
    if (w.retType) { if (isF(w.retType)) s += std::string("xretf ") + (w.retType == K.c_ARG_TYPE_F64 ? "1 " : "0 ") + h(m.eval(w.retV)) + "\n"; else { bool t32 = w.retType == K.c_ARG_TYPE_32 && AI.xl == 64; s += "xret " + h(m.eval(t32 ? vsext(vtrunc(w.retV, 32), 64) : w.retV)) + " " + h(t32 && !AI.sext32 ? 0xffffffffULL : maskw(AI.xl)) + "\n"; } }
    std::set<u64> sa; for (size_t k = 0; k < w.stubs.size(); k++) { auto& st = w.stubs[k]; if (sa.insert(st.addr).second) s += "stub " + h(st.sym.w ? m.eval(st.sym) : st.addr) + "\n"; int rt = st.at & 15; s += "sret " + std::to_string(k) + " " + std::to_string(isF(rt) ? (rt == K.c_ARG_TYPE_F64 ? 2 : 1) : 0) + " " + h(st.ret.w ? m.eval(AI.xl == 64 && rt == K.c_ARG_TYPE_32 && AI.sext32 ? vsext(vtrunc(st.ret, 32), 64) : st.ret) : 0) + "\n";
      auto al = abiLocs(st.at); auto pos = [&](std::vector<int> v, int r) { for (size_t q = 0; q < v.size(); q++) if (v[q] == r) return (int)q; return -1; };
      for (size_t q = 0; q < al.size(); q++) { auto& l = al[q]; int t = l.type & 7; V a = st.args[q]; bool t32 = t == K.c_ARG_TYPE_32 && AI.xl == 64; if (l.k == 'r') s += "xci " + std::to_string(k) + " " + std::to_string(pos(M.argRegs(), l.idx)) + " " + h(m.eval(t32 ? vsext(vtrunc(a, 32), 64) : a)) + " " + h(t32 && !AI.sext32 ? 0xffffffffULL : maskw(AI.xl)) + "\n"; else if (l.k == 'f') s += "xcf " + std::to_string(k) + " " + std::to_string(M.argFPos(l.idx)) + " " + (t == K.c_ARG_TYPE_F64 ? "1 " : "0 ") + h(m.eval(a)) + "\n"; else if (l.k == 's') { s += "xcs " + std::to_string(k) + " " + h(l.ofs) + " " + std::to_string(t == K.c_ARG_TYPE_F64 ? 8 : t == K.c_ARG_TYPE_F32 ? 4 : (int)AI.xl / 8) + " " + h(m.eval(a)) + "\n"; } else s += "xcm " + std::to_string(k) + " " + std::to_string(l.idx - 4) + " " + (t == K.c_ARG_TYPE_F64 ? "2 " : "1 ") + h(m.eval(a)) + "\n"; } }
    for (auto& r : w.rl) s += r + "\n"; for (auto& d : w.dyn) { s += d.s; for (auto& v : d.v) s += " " + h(m.eval(v)); s += "\n"; }
    return s; }; }
u64 jumpAddrOf(Ctx& c, V h) { return c.E.concretize(c.E.call("hz_jump_addr", {h})); } u64 constAddrOf(Ctx& c, V h) { return c.E.concretize(c.E.call("hz_const_addr", {h})); }
