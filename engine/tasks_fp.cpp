// C11: floating point operations
#include "tasks.h"
static LI mk(int k, int op, Opnd d = Opnd(), Opnd a = Opnd(), Opnd b = Opnd(), int type = 0, int lab = -1) { LI i; i.k = k; i.op = op; i.d = d; i.a = a; i.b = b; i.type = type; i.lab = lab; return i; }
static bool wide() { return AI.name[0] == 'x' || THOROUGH; } // targets with full width immediates
static bool x32() { return AI.name == "x86_32"; }
typedef std::function<Prog(Ctx&)> PF; typedef std::function<Opnd()> OF;
static Env fenv(int local = 64) { Env e; e.scr = 6; e.sav = 5; e.fscr = AI.nFscratch; e.fsav = AI.nFsaved; e.local = local; return e; }
static void add(Tasks& T, const std::string& id, PF f, int local = 64, unsigned mp = 150) { T.push_back(segTask(id, f, fenv(local), THOROUGH ? mp * 4 : mp)); }
struct FO { std::string n; OF f; bool mem; };
static FO fr(int i) { return {"f" + std::to_string(i), [i] { return FREG(rFR(i)); }, false}; }
static FO fs(int i) { return {"g" + std::to_string(i), [i] { return FREG(rFS(i)); }, false}; }
static V dsp(const std::string& n, int b) { return THOROUGH ? ssx(n, 33 < (int)AI.xl ? 33 : 32) : ssx(n, b); }
static std::vector<FO> memOps(const std::string& t) { // t distinguishes the symbolic names of two operands
  int vb = rR(x32() ? 1 : 4); std::vector<FO> v;
  v.push_back({"m", [=] { return MEM1(rR(1), dsp("disp" + t, 14)); }, true}); v.push_back({"mS", [=] { return MEM1(rS(1), dsp("disp" + t, 13)); }, true}); v.push_back({"mV", [=] { return MEM1(vb, dsp("disp" + t, 10)); }, true});
  v.push_back({"m0", [=] { return MEM1(rR(2), 0); }, true}); v.push_back({"a", [=] { return MEM0(vadd(vzx(var("abs.u18" + t, 18), AI.xl), cw(0x60000000))); }, true}); if (wide()) v.push_back({"aW", [=] { return MEM0(sw("abs" + t)); }, true});
  v.push_back({"x0", [=] { return MEM2(rR(1), rR(2), 0); }, true}); v.push_back({"x2", [=] { return MEM2(rR(0), rS(0), 2); }, true}); v.push_back({"x3", [=] { return MEM2(rS(1), rR(2), 3); }, true}); v.push_back({"xx", [=] { return MEM2(rR(1), rR(1), 1); }, true});
  v.push_back({"s0", [] { return SPM(0); }, true}); v.push_back({"s8", [] { return SPM(48); }, true}); v.push_back({"sb", [] { return SPM(32760); }, true}); return v; }
static std::vector<FO> regs() { int n = AI.nFscratch; std::vector<FO> v{fr(0), fr(1), fr(2), fr(n - 1)}; if (AI.nFsaved) v.push_back(fs(0)); return v; }
static bool big(const FO& o) { return o.n == "sb"; }
static u32 hs(u32 x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; x ^= x >> 16; return x; }
static std::vector<int> fconds() { std::vector<int> v; for (int t = K.c_F_EQUAL; t <= K.c_ORDERED_LESS_EQUAL; t++) v.push_back(t); return v; }
static int setOf(int t) { return (t & ~1) << 10; }
static void fpTasks(Tasks& T) {
  auto rg = regs(); auto m1 = memOps(""), m2 = memOps("2"), m3 = memOps("3"); u32 n = 0; if (AI.xl == 32) {}
  int P32[2] = {0, K.c_32};
  auto SS = [](int p) { return p ? std::string("s") : std::string("d"); };
  struct U { const char* n; int op; };
  // one operand
  std::vector<U> un{{"mov", K.c_MOV_F64}, {"neg", K.c_NEG_F64}, {"abs", K.c_ABS_F64}, {"cvt", K.c_CONV_F64_FROM_F32}};
  for (auto& u : un) for (int p : P32) {
    auto one = [&](const FO& d, const FO& a) { if (d.mem && a.mem && u.op == K.c_CONV_F64_FROM_F32 && d.n == a.n && d.n[0] == 's') return; int op = u.op | p; OF df = d.f, af = a.f; add(T, std::string(u.n) + SS(p) + "." + d.n + "." + a.n, [=](Ctx&) { return Prog{mk(L_FOP1, op, df(), af())}; }, big(d) || big(a) ? 32768 : 64); };
    for (auto& d : rg) for (auto& a : rg) one(d, a); for (auto& d : m2) for (size_t k = 0; k < 2; k++) one(d, rg[hs(n++) % rg.size()]); for (auto& a : m1) for (size_t k = 0; k < 2; k++) one(rg[hs(n++) % rg.size()], a);
    for (size_t k = 0; k < 12; k++) one(m2[hs(n * 2) % m2.size()], m1[hs(n++ * 2 + 1) % m1.size()]); }
  // conversions to integers
  std::vector<FO> ir{{"r0", [] { return R(0); }, false}, {"r3", [] { return R(3); }, false}, {"r5", [] { return R(5); }, false}, {"s1", [] { return S(1); }, false}, {"s4", [] { return S(4); }, false}};
  for (int op : {K.c_CONV_SW_FROM_F64, K.c_CONV_S32_FROM_F64}) for (int p : P32) {
    auto one = [&](const FO& d, const FO& a) { int o = op | p; OF df = d.f, af = a.f; add(T, "toint." + std::to_string(op) + SS(p) + "." + d.n + "." + a.n, [=](Ctx&) { return Prog{mk(L_FOP1, o, df(), af())}; }, big(d) || big(a) ? 32768 : 64); };
    for (auto& d : ir) { for (auto& a : rg) one(d, a); for (int k = 0; k < 3; k++) one(d, m1[hs(n++) % m1.size()]); } for (auto& d : m2) one(d, rg[hs(n++) % rg.size()]); for (int k = 0; k < 6; k++) one(m2[hs(n * 2) % m2.size()], m1[hs(n++ * 2 + 1) % m1.size()]); }
  // conversions from integers
  for (int op : {K.c_CONV_F64_FROM_SW, K.c_CONV_F64_FROM_S32, K.c_CONV_F64_FROM_UW, K.c_CONV_F64_FROM_U32}) for (int p : P32) {
    auto one = [&](const FO& d, const FO& a) { int o = op | p; OF df = d.f, af = a.f; add(T, "fromint." + std::to_string(op) + SS(p) + "." + d.n + "." + a.n, [=](Ctx&) { return Prog{mk(L_FOP1, o, df(), af())}; }, big(d) || big(a) ? 32768 : 64); };
    bool w32 = op == K.c_CONV_F64_FROM_S32 || op == K.c_CONV_F64_FROM_U32; auto ir2 = ir; ir2.push_back({"imm", [=] { return w32 ? IMM(wide() ? vsxt(var("imm.w32", 32), AI.xl) : ssx("imm", 14)) : IMM(wide() ? sw("imm") : ssx("imm", 14)); }, false}); ir2.push_back({"imm8", [=] { return IMM(ssx("imm", 9)); }, false});
    for (auto& a : ir2) { for (auto& d : rg) one(d, a); for (int k = 0; k < 3; k++) one(m1[hs(n++) % m1.size()], a); } for (auto& a : m2) one(rg[hs(n++) % rg.size()], a); for (int k = 0; k < 6; k++) one(m2[hs(n * 2) % m2.size()], m1[hs(n++ * 2 + 1) % m1.size()]); }
  if (!wide()) for (int p : P32) { for (auto& d : rg) { OF df = d.f; add(T, "movW" + SS(p) + "." + d.n, [=](Ctx&) { return Prog{mk(L_FOP1, K.c_MOV_F64 | p, df(), MEM0(sw("abs")))}; }); add(T, "movWst" + SS(p) + "." + d.n, [=](Ctx&) { return Prog{mk(L_FOP1, K.c_MOV_F64 | p, MEM0(sw("abs")), df())}; }); }
    for (int op : {K.c_CONV_F64_FROM_SW, K.c_CONV_F64_FROM_S32, K.c_CONV_F64_FROM_UW, K.c_CONV_F64_FROM_U32}) { bool w32 = op == K.c_CONV_F64_FROM_S32 || op == K.c_CONV_F64_FROM_U32; add(T, "fromimmW." + std::to_string(op) + SS(p), [=](Ctx&) { return Prog{mk(L_FOP1, op | p, FREG(rFR(0)), IMM(w32 ? vsxt(var("imm.w32", 32), AI.xl) : sw("imm")))}; }); } }
  // two operands
  std::vector<U> bin{{"add", K.c_ADD_F64}, {"sub", K.c_SUB_F64}, {"mul", K.c_MUL_F64}, {"div", K.c_DIV_F64}};
  std::vector<std::vector<int>> al{{0, 1, 2}, {0, 0, 1}, {0, 1, 0}, {0, 0, 0}, {0, 1, 1}, {3, 1, 3}, {3, 3, 2}, {2, 3, 2}};
  auto pick = [&](const std::vector<FO>& v, u32 k) { return v[hs(n * 7 + k) % v.size()]; };
  for (auto& u : bin) for (int p : P32) {
    auto one = [&](const FO& d, const FO& a, const FO& b) { int op = u.op | p; OF df = d.f, af = a.f, bf = b.f; add(T, std::string(u.n) + SS(p) + "." + d.n + "." + a.n + "." + b.n, [=](Ctx&) { return Prog{mk(L_FOP2, op, df(), af(), bf())}; }, big(d) || big(a) || big(b) ? 32768 : 64); };
    for (auto& x : al) one(rg[x[0]], rg[x[1]], rg[x[2]]);
    for (int k = 0; k < 10; k++, n++) { one(pick(m3, 1), pick(rg, 2), pick(rg, 3)); one(pick(rg, 1), pick(m1, 2), pick(rg, 3)); one(pick(rg, 1), pick(rg, 2), pick(m2, 3)); FO r = pick(rg, 4); one(r, r, pick(m2, 5)); one(r, pick(m1, 5), r); }
    for (int k = 0; k < 8; k++, n++) { one(pick(m3, 1), pick(m1, 2), pick(rg, 3)); one(pick(m3, 1), pick(rg, 2), pick(m2, 3)); one(pick(rg, 1), pick(m1, 2), pick(m2, 3)); one(pick(m3, 1), pick(m1, 2), pick(m2, 3)); FO mm = pick(m1, 4); one(mm, mm, pick(rg, 3)); one(mm, pick(rg, 3), mm); } }
  for (int p : P32) { auto one = [&](const FO& d, const FO& a, const FO& b) { int op = K.c_COPYSIGN_F64 | p; OF df = d.f, af = a.f, bf = b.f; add(T, std::string("copysign") + SS(p) + "." + d.n + "." + a.n + "." + b.n, [=](Ctx&) { return Prog{mk(L_FOP2R, op, df(), af(), bf())}; }, big(a) || big(b) ? 32768 : 64); };
    for (auto& x : al) one(rg[x[0]], rg[x[1]], rg[x[2]]); for (int k = 0; k < 12; k++, n++) { one(pick(rg, 1), pick(m1, 2), pick(rg, 3)); one(pick(rg, 1), pick(rg, 2), pick(m2, 3)); one(pick(rg, 1), pick(m1, 2), pick(m2, 3)); FO r = pick(rg, 4); one(r, r, pick(m2, 5)); one(r, pick(m1, 5), r); } }
  // immediates
  for (auto& d : rg) { OF df = d.f; add(T, "fset32." + d.n, [=](Ctx&) { return Prog{mk(L_FSET32, K.c_32, df(), IMM(vzx(var("fimm.32", 32), AI.xl)))}; }, 64, 20000); add(T, "fset64." + d.n, [=](Ctx&) { LI i = mk(L_FSET64, 0, df()); i.a.k = OIMM; i.a.w = var("fimm.64", 64); return Prog{i}; }, 64, 500);
    for (int sh : {44, 32, 16, 0}) add(T, "fset64s" + std::to_string(sh) + "." + d.n, [=](Ctx&) { LI i = mk(L_FSET64, 0, df()); i.a.k = OIMM; V x = var("fimm.20", 20); i.a.w = sh == 44 ? vshl(vzx(x, 64), V(44, 64)) : vor(V(0x4008000000000000ULL, 64), vshl(vzx(x, 64), V(sh, 64))); return Prog{i}; }, 64, 3000);
    OF df2 = pick(rg, 1).f; n++; add(T, "fset64x." + d.n, [=](Ctx&) { LI i = mk(L_FSET64, 0, df()); i.a.k = OIMM; i.a.w = var("fimm.64", 64); return Prog{i, mk(L_FSET32, K.c_32, df2(), IMM(vzx(var("fimm.32", 32), AI.xl)))}; }, 64, 300); }
  // bit copies
  for (auto& d : rg) for (auto& a : ir) { OF df = d.f, af = a.f; for (int p : P32) for (int dir : {K.c_COPY_TO_F64, K.c_COPY_FROM_F64}) for (int pr = 0; pr < 3; pr++) { if (pr && (p || AI.xl == 64)) continue; int r2 = pr == 1 ? rR(1) : pr == 2 ? rS(2) : 0; if (pr && r2 == 0) continue;
      add(T, "fcopy." + std::to_string(dir) + SS(p) + "." + d.n + "." + a.n + "." + std::to_string(pr), [=](Ctx&) { LI i = mk(L_FCOPY, dir | p, df(), af()); i.r2 = r2; return Prog{i}; }); } }
  // comparisons followed by the uses of the flag
  for (int t : fconds()) for (int p : P32) { for (int k = 0; k < 7; k++, n++) { FO a = k < 3 ? rg[k == 2 ? 3 : 0] : k == 4 || k == 6 ? pick(m1, 1) : pick(rg, 2), b = k < 3 ? rg[k == 1 ? 0 : 1] : k == 5 || k == 6 ? pick(m2, 3) : pick(rg, 4); OF af = a.f, bf = b.f; int use = k % 4, cmp = K.c_CMP_F64 | p | setOf(t); int loc = big(a) || big(b) ? 32768 : 64; std::string id = std::to_string(t) + SS(p) + "." + a.n + "." + b.n + "." + std::to_string(k);
      add(T, "fcmp.flag." + id, [=](Ctx&) { Prog q{mk(L_FOP1, cmp, af(), bf())}; if (use == 0) q.push_back(mk(L_OPFLAGS, K.c_MOV, R(3), Opnd(), Opnd(), t)); else if (use == 1) { q.push_back(mk(L_OPFLAGS, K.c_MOV32, S(1), Opnd(), Opnd(), t)); q.push_back(mk(L_OPFLAGS, K.c_MOV, R(0), Opnd(), Opnd(), t ^ 1)); }
        else if (use == 2) { q.push_back(mk(L_SELECT, 0, R(2), R(0), R(1), t)); } else { q.push_back(mk(L_JUMP, 0, Opnd(), Opnd(), Opnd(), t, 0)); q.push_back(mk(L_OP1, K.c_MOV, R(0), IMM(77))); q.push_back(mk(L_LABEL, 0, Opnd(), Opnd(), Opnd(), 0, 0)); } return q; }, loc);
      add(T, "fcmp.jump." + id, [=](Ctx&) { return Prog{mk(L_FCMP, p, Opnd(), af(), bf(), t, 0), mk(L_OP1, K.c_MOV, R(0), IMM(77)), mk(L_LABEL, 0, Opnd(), Opnd(), Opnd(), 0, 0)}; }, loc);
      FO x = pick(rg, 5), y = k & 1 ? pick(m3, 6) : pick(rg, 6), z = pick(rg, 7); OF xf = x.f, yf = y.f, zf = z.f; if (use > 1 && y.n != "sb")
      add(T, "fsel.f." + id + "." + x.n + "." + y.n + "." + z.n, [=](Ctx&) { return Prog{mk(L_FOP1, cmp, af(), bf()), mk(L_FSELECT, p, xf(), yf(), zf(), t)}; }, loc); } }
  // selection by integer conditions
  { std::vector<int> ic{K.c_EQUAL, K.c_NOT_EQUAL, K.c_LESS, K.c_GREATER_EQUAL, K.c_GREATER, K.c_LESS_EQUAL, K.c_SIG_LESS, K.c_SIG_GREATER_EQUAL, K.c_SIG_GREATER, K.c_SIG_LESS_EQUAL, K.c_OVERFLOW, K.c_NOT_OVERFLOW, K.c_CARRY, K.c_NOT_CARRY};
    for (int t : ic) for (int p : P32) for (int k = 0; k < 6; k++, n++) { int sub = t == K.c_EQUAL || t == K.c_NOT_EQUAL ? K.c_SUB | K.c_SET_Z : t == K.c_CARRY || t == K.c_NOT_CARRY ? K.c_SUB | K.c_SET_CARRY : K.c_SUB | setOf(t); FO d = k < 3 ? rg[0] : pick(rg, 1), a = k == 0 ? rg[0] : k == 1 ? rg[1] : k == 3 ? pick(rg, 2) : pick(m1, 2), b = k == 0 ? rg[1] : k == 1 ? rg[0] : pick(rg, 3); OF df = d.f, af = a.f, bf = b.f;
      add(T, "fsel.i" + std::to_string(t) + SS(p) + "." + d.n + "." + a.n + "." + b.n + "." + std::to_string(k), [=](Ctx&) { return Prog{mk(k & 1 ? L_OP2U : L_OP2, sub, k & 1 ? Opnd() : S(3), R(0), S(2)), mk(L_FSELECT, p, df(), af(), bf(), t)}; }, big(a) ? 32768 : 64); } }
  // unaligned and updating accesses
  for (int p : P32) for (int st : {K.c_MEM_LOAD, K.c_MEM_STORE}) { for (auto& m : m1) for (int ua : {K.c_MEM_UNALIGNED, K.c_MEM_ALIGNED_16, K.c_MEM_ALIGNED_32}) { if ((ua == K.c_MEM_ALIGNED_32 && p) || big(m)) continue; OF mf = m.f; FO r = pick(rg, 1); n++; OF rf = r.f; add(T, "fmem." + SS(p) + std::to_string(st) + "." + std::to_string(ua) + "." + m.n + "." + r.n, [=](Ctx&) { LI i = mk(L_FMEM, K.c_MOV_F64 | p, rf(), mf()); i.type = st | ua; return Prog{i}; }); }
    for (int post : {K.c_MEM_PRE, K.c_MEM_POST}) for (int k = 0; k < 4; k++) { Opnd o; FO r = rg[k % rg.size()]; OF rf = r.f; add(T, "fmemu." + SS(p) + std::to_string(st) + "." + std::to_string(post) + "." + std::to_string(k), [=](Ctx&) { LI i = mk(L_FMEMUPD, K.c_MOV_F64 | p, rf(), k == 0 ? MEM1(rR(1), ssx("disp", 12)) : k == 1 ? MEM1(rS(1), ssx("disp", 10)) : k == 2 ? MEM1(rR(2), 8) : MEM2(rR(1), rR(2), 0)); i.type = st | post; return Prog{i}; }); } }
  // sequences: results feed later operations, temporary registers and cached addresses must not leak between instructions
  for (int k = 0; k < (THOROUGH ? 600 : 160); k++, n++) { bool loc = false; std::vector<LI> q; std::vector<std::function<LI()>> fs_; int p = 0; std::string id; u32 h0 = hs(n * 13 + 5); p = (h0 & 1) ? K.c_32 : 0; int len = 2 + (h0 >> 1) % 2;
    for (int j = 0; j < len; j++) { u32 h = hs(h0 + j * 977); auto pk = [&](const std::vector<FO>& v, int sft) { FO o = v[(h >> sft) % v.size()]; if (big(o)) loc = true; return o; }; int kind = (h >> 3) % 7; const auto& mm = j == 0 ? m1 : j == 1 ? m2 : m3; FO d = pk(rg, 6), a = (h >> 9 & 1) ? pk(mm, 10) : pk(rg, 10), b = pk(rg, 14), im = ir[(h >> 17) % ir.size()]; OF df = d.f, af = a.f, bf = b.f, jf = im.f; if (kind == 6 && a.mem) kind = 0; if (AI.xl == 32 && kind == 5) kind = 1;
      id += std::to_string(kind) + d.n + a.n + b.n + "-"; OF st = (h >> 20 & 1) && kind < 2 ? pk(mm, 21).f : df;
      int bop = bin[(h >> 24) % 4].op | p, uop = un[(h >> 26) % 3].op | p;
      if (kind < 2) fs_.push_back([=] { return mk(L_FOP2, bop, st(), af(), bf()); }); else if (kind == 2) fs_.push_back([=] { return mk(L_FOP1, uop, df(), af()); }); else if (kind == 3) fs_.push_back([=] { return mk(L_FOP2R, K.c_COPYSIGN_F64 | p, df(), af(), bf()); });
      else if (kind == 4) fs_.push_back([=] { return mk(L_FOP1, K.c_CONV_F64_FROM_SW | p, df(), jf()); }); else if (kind == 5) fs_.push_back([=] { return mk(L_FCOPY, (K.c_COPY_TO_F64), df(), jf()); }); else fs_.push_back([=] { return mk(L_FOP2, bop, df(), bf(), af()); }); if (kind == 5 && p) fs_.back() = [=] { return mk(L_FOP1, K.c_CONV_F64_FROM_UW | p, df(), jf()); }; }
    add(T, "seq." + std::to_string(k) + SS(p) + "." + id, [=](Ctx&) { Prog r; for (auto& f : fs_) r.push_back(f()); return r; }, loc ? 32768 : 64); } }
static Reg_ r("fp", fpTasks);
