// memory operands (C02), flags (C03), control flow (C06)
#include "tasks.h"
static LI mk(int k, int op, Opnd d = Opnd(), Opnd a = Opnd(), Opnd b = Opnd(), int type = 0, int lab = -1) { LI i; i.k = k; i.op = op; i.d = d; i.a = a; i.b = b; i.type = type; i.lab = lab; return i; }
LI lOp1(int op, Opnd d, Opnd a) { return mk(L_OP1, op, d, a); }
LI lOp2(int op, Opnd d, Opnd a, Opnd b) { return mk(L_OP2, op, d, a, b); }
LI lOp2u(int op, Opnd a, Opnd b) { return mk(L_OP2U, op, Opnd(), a, b); }
LI lFlags(int op, Opnd d, int t) { return mk(L_OPFLAGS, op, d, Opnd(), Opnd(), t); }
LI lSel(int t, int f32, Opnd d, Opnd a, Opnd b) { return mk(L_SELECT, f32, d, a, b, t); }
LI lJump(int t, int lab) { return mk(L_JUMP, 0, Opnd(), Opnd(), Opnd(), t, lab); }
LI lCmp(int t, int f32, Opnd a, Opnd b, int lab) { return mk(L_CMP, f32, Opnd(), a, b, t, lab); }
LI lLabel(int lab) { return mk(L_LABEL, 0, Opnd(), Opnd(), Opnd(), 0, lab); }
LI lMem(int op, int flags, int reg, Opnd m, int reg2 = 0) { LI i = mk(L_MEM, op, REG(reg), m, Opnd(), flags); i.r2 = reg2; return i; }
LI lMemU(int op, int flags, int reg, Opnd m) { return mk(L_MEMUPD, op, REG(reg), m, Opnd(), flags); }
LI lFill(int n) { return mk(L_FILL, 0, Opnd(), Opnd(), Opnd(), n); }
static V s2(const std::string& n) { return ssx(n, 18); }
static int vb() { return rR(AI.name == "x86_32" ? 1 : 4); }
static bool x32() { return AI.name == "x86_32"; }
typedef std::function<Prog(Ctx&)> PF;
static void add(Tasks& T, const std::string& id, PF f, Env e = Env(), unsigned mp = 400) { if (!THOROUGH && mp == 400 && id.size() > 2 && (id[id.size() - 1] == 'W' || id.find("sym") != std::string::npos)) mp = 120; T.push_back(segTask(id, f, e, mp)); }

// ------------------------------------------------------------------ memory operands
static void memTasks(Tasks& T) {
  struct MF { std::string n; std::function<Opnd()> f; };
  std::vector<MF> mf = {
    {"d", [] { return MEM1(rR(1), ssx("disp", 24)); }}, {"dW", [] { return MEM1(rR(1), sw("disp")); }}, {"dS", [] { return MEM1(rS(0), ssx("disp", 22)); }}, {"dR0", [] { return MEM1(rR(0), ssx("disp", 20)); }}, {"dV", [] { return MEM1(vb(), ssx("disp", 16)); }},
    {"0", [] { return MEM1(rR(1), 0); }}, {"aW", [] { return MEM0(sw("abs")); }}, {"a", [] { return MEM0(vadd(vzx(var("abs.u24", 24), AI.xl), cw(0x60000000))); }}, {"a32", [] { return MEM0(vadd(vzx(var("abs.u16", 16), AI.xl), cw(0x60000000))); }},
    {"x0", [] { return MEM2(rR(1), rR(2), 0); }}, {"x1", [] { return MEM2(rR(1), rS(0), 1); }}, {"x2", [] { return MEM2(rS(1), rR(2), 2); }}, {"x3", [] { return MEM2(rS(0), rS(2), 3); }}, {"xs", [] { return MEM2(rR(1), rR(1), 1); }}, {"x00", [] { return MEM2(rR(2), rR(0), 3); }} };
  auto spf = [](i64 k) { return MF{"sp" + std::to_string(k), [k] { return SPM(k); }}; };
  std::vector<MF> sps = {spf(0), spf(8), spf(248), spf(256), spf(4080), spf(4096), spf(32752), spf(32760), spf(32768), spf(60000)};
  Env big; big.local = 65000 & ~15; Env small;
  struct OpN { const char* n; int op; unsigned sz; };
  std::vector<OpN> ops = {{"mov", K.c_MOV, AI.xl / 8}, {"u8", K.c_MOV_U8, 1}, {"s8", K.c_MOV_S8, 1}, {"u16", K.c_MOV_U16, 2}, {"s16", K.c_MOV_S16, 2}, {"mov32", K.c_MOV32, 4}, {"p", K.c_MOV_P, AI.xl / 8}};
  if (AI.xl == 64) { ops.push_back({"u32", K.c_MOV_U32, 4}); ops.push_back({"s32", K.c_MOV_S32, 4}); ops.push_back({"u8_32", K.c_MOV32_U8, 1}); ops.push_back({"s8_32", K.c_MOV32_S8, 1}); ops.push_back({"u16_32", K.c_MOV32_U16, 2}); ops.push_back({"s16_32", K.c_MOV32_S16, 2}); }
  auto all = mf; for (auto& s : sps) all.push_back(s);
  for (auto& o : ops) for (auto& m : all) { int op = o.op; auto g = m.f; Env e = m.n.compare(0, 2, "sp") ? small : big; std::string id = std::string(o.n) + "." + m.n;
    bool W = m.n == "dW" || m.n == "aW"; if (W && o.op != K.c_MOV && o.op != K.c_MOV_S8 && o.op != K.c_MOV32) continue;
    add(T, "ld." + id, [=](Ctx&) { return Prog{lOp1(op, R(0), g())}; }, e); add(T, "st." + id, [=](Ctx&) { return Prog{lOp1(op, g(), R(3))}; }, e);
    add(T, "ldS." + id, [=](Ctx&) { return Prog{lOp1(op, S(1), g())}; }, e); add(T, "sti." + id, [=](Ctx&) { return Prog{lOp1(op, g(), IMM(ssx("imm", 8)))}; }, e);
    add(T, "ldB." + id, [=](Ctx&) { return Prog{lOp1(op, R(1), g())}; }, e); add(T, "stB." + id, [=](Ctx&) { return Prog{lOp1(op, g(), R(1))}; }, e); add(T, "stV." + id, [=](Ctx&) { return Prog{lOp1(op, g(), R(5))}; }, e); }
  // two memory operands, sequences on close addresses (address reuse)
  for (auto& o : ops) { int op = o.op; unsigned sz = o.sz; std::string n = o.n;
    add(T, "seq1." + n, [=](Ctx&) { V d = ssx("disp", 17); return Prog{lOp1(op, MEM1(rR(1), d), R(2)), lOp1(op, R(3), MEM1(rR(1), vadd(d, cw(8))))}; });
    add(T, "seq2." + n, [=](Ctx&) { V d = s2("disp"); return Prog{lOp1(op, R(0), MEM1(rS(0), d)), lOp1(op, MEM1(rS(0), vadd(d, cw(16))), R(0))}; });
    add(T, "seq3." + n, [=](Ctx&) { V d = vadd(vzx(var("abs.u15", 15), AI.xl), cw(0x60010000)); return Prog{lOp1(op, R(0), MEM0(d)), lOp1(op, MEM0(vadd(d, cw(0x1000))), R(0))}; });
    add(T, "seq4." + n, [=](Ctx&) { V d = ssx("disp", 20); return Prog{lOp1(op, MEM1(rR(1), d), MEM1(rR(2), vadd(d, cw(64)))), lOp1(K.c_MOV, R(1), R(2)), lOp1(op, MEM1(rR(1), d), R(3))}; });
    add(T, "mm." + n, [=](Ctx&) { return Prog{lOp1(op, MEM1(rR(1), s2("disp")), MEM1(rR(2), cw(0x12340)))}; }); add(T, "mma." + n, [=](Ctx&) { return Prog{lOp1(op, MEM0(vadd(cw(0x60000000), vzx(var("abs.u26", 26), AI.xl))), MEM2(rR(1), rR(2), 1))}; });
    add(T, "mmx." + n, [=](Ctx&) { return Prog{lOp1(op, MEM2(rS(0), rR(1), 3), MEM1(rR(0), s2("disp")))}; }); add(T, "mm=." + n, [=](Ctx&) { return Prog{lOp1(op, MEM1(rR(1), ssx("disp", 20)), MEM1(rR(1), vadd(ssx("disp", 20), cw(sz))))}; });
    add(T, "mmsp." + n, [=](Ctx&) { return Prog{lOp1(op, SPM(40000), MEM1(rR(1), ssx("disp", 14)))}; }, big); }
  // binary operations with extreme addresses
  for (int w = 0; w <= (AI.xl == 64); w++) { int f = w ? K.c_32 : 0; std::string sx_ = w ? "32" : ""; int AD = K.c_ADD | f, SU = K.c_SUB | f, SH = K.c_MSHL | f, ML = K.c_MUL | f;
    for (auto& pr : std::vector<std::pair<std::string, int>>{{"add", AD}, {"sub", SU}, {"mshl", SH}, {"mul", ML}}) { int op = pr.second; std::string n = pr.first + sx_;
      add(T, "b.dab." + n, [=](Ctx&) { return Prog{lOp2(op, MEM1(rR(1), s2("disp")), MEM0(cw(0x60001238)), MEM2(rR(2), rR(3 - x32()), 2))}; });
      add(T, "b.rmm." + n, [=](Ctx&) { return Prog{lOp2(op, R(0), MEM1(rR(1), s2("disp")), MEM1(rR(2), vadd(s2("disp"), cw(8))))}; });
      add(T, "b.mmm=." + n, [=](Ctx&) { V d = s2("disp"); return Prog{lOp2(op, MEM1(rR(1), d), MEM1(rR(1), d), MEM1(rR(1), d))}; });
      add(T, "b.mrm." + n, [=](Ctx&) { return Prog{lOp2(op, MEM1(rR(1), s2("disp")), R(2), MEM1(rR(0), cw(-8)))}; });
      add(T, "b.mri." + n, [=](Ctx&) { return Prog{lOp2(op, MEM1(rR(1), ssx("disp", 17)), MEM1(rR(1), ssx("disp", 17)), IMM(ssx("imm", 17)))}; });
      add(T, "b.xim." + n, [=](Ctx&) { return Prog{lOp2(op, MEM2(rR(0), rR(1), 0), IMM(ssx("imm", 12)), MEM2(rR(1), rR(2), 3))}; });
      add(T, "b.sp." + n, [=](Ctx&) { return Prog{lOp2(op, SPM(50000), SPM(32760), SPM(0))}; }, big); add(T, "b.aaa." + n, [=](Ctx&) { return Prog{lOp2(op, MEM0(vadd(cw(0x60000000), vzx(var("abs.u26", 26), AI.xl))), MEM0(vadd(vadd(cw(0x60000000), vzx(var("abs.u26", 26), AI.xl)), cw(16))), R(1))}; }); } }
  // unaligned and pair accesses
  std::vector<std::pair<std::string, int>> al = {{"un", K.c_MEM_UNALIGNED}, {"a16", K.c_MEM_ALIGNED_16}, {"a32", K.c_MEM_ALIGNED_32}};
  for (auto& o : ops) for (auto& a : al) for (auto& m : mf) { if (m.n == "dW" || m.n == "aW" || m.n == "dV" || m.n == "dS" || m.n == "a32") continue; if (o.sz == 1 && a.first != "un") continue; if (o.sz < 4 && a.first != "un") continue; if (a.first == "a32" && o.op != K.c_MOV && o.op != K.c_MOV_P) continue; int op = o.op, fl = a.second; auto g = m.f; std::string id = std::string(o.n) + "." + a.first + "." + m.n;
    add(T, "memld." + id, [=](Ctx&) { return Prog{lMem(op, fl, rR(0), g())}; }); add(T, "memst." + id, [=](Ctx&) { return Prog{lMem(op, fl | K.c_MEM_STORE, rR(3), g())}; });
    if (m.n == "d" || m.n == "0" || m.n == "xs") { add(T, "memldB." + id, [=](Ctx&) { return Prog{lMem(op, fl, rR(1), g())}; }); add(T, "memstB." + id, [=](Ctx&) { return Prog{lMem(op, fl | K.c_MEM_STORE, rR(1), g())}; }); add(T, "memldV." + id, [=](Ctx&) { return Prog{lMem(op, fl, rR(5), g())}; }); } }
  auto al2 = al; al2.push_back({"al", 0});
  for (auto& a : al2) for (auto& m : all) { if ((m.n == "dW" || m.n == "aW") && a.first != "al") continue; auto g = m.f; int fl = a.second; Env e = m.n.compare(0, 2, "sp") ? small : big; std::string id = a.first + "." + m.n;
    struct RP { const char* n; int a, b; }; 
    for (auto& rp : std::vector<RP>{{"01", rR(0), rR(1)}, {"10", rR(1), rR(0)}, {"23", rR(2), rR(3)}, {"32", rR(3), rR(2)}, {"ss", rS(0), rS(1)}, {"45", rR(4), rR(5)}, {"12", rR(1), rR(2)}, {"1s", rR(1), rS(0)}}) { if ((m.n == "dW" || m.n == "aW") && rp.n[0] != '1') continue; int r1 = rp.a, r2 = rp.b;
      add(T, "ldp." + std::string(rp.n) + "." + id, [=](Ctx&) { return Prog{lMem(K.c_MOV, fl, r1, g(), r2)}; }, e); add(T, "stp." + std::string(rp.n) + "." + id, [=](Ctx&) { return Prog{lMem(K.c_MOV, fl | K.c_MEM_STORE, r1, g(), r2)}; }, e); } }
  // base register update
  for (auto& o : ops) for (int st = 0; st < 2; st++) for (int post = 0; post < 2; post++) { int op = o.op, fl = (st ? K.c_MEM_STORE : 0) | (post ? K.c_MEM_POST : K.c_MEM_PRE); std::string id = std::string(o.n) + (st ? ".st" : ".ld") + (post ? ".post" : ".pre");
    add(T, "upd.d." + id, [=](Ctx&) { return Prog{lMemU(op, fl, rR(0), MEM1(rR(1), ssx("disp", 16)))}; }); add(T, "upd.dS." + id, [=](Ctx&) { return Prog{lMemU(op, fl, rS(1), MEM1(rS(0), ssx("disp", 9)))}; }); 
    for (int sh = 0; sh < 4; sh++) add(T, "upd.x" + std::to_string(sh) + "." + id, [=](Ctx&) { return Prog{lMemU(op, fl, rR(0), MEM2(rR(1), rR(2), sh))}; }); }
  for (i64 k : {0, 1, 8, 256, 4095, 4096, 32767, 60000}) for (auto& d : std::vector<std::pair<std::string, Opnd>>{{"r", R(0)}, {"s", S(1)}, {"v", R(5)}, {"m", MEM1(rS(0), 16)}, {"a", MEM0(cw(0x60001238))}, {"far", MEM1(rS(0), 0x12345678)}}) { Opnd o = d.second; add(T, "localbase." + std::to_string(k) + "." + d.first, [=](Ctx&) { LI i = mk(L_LOCALBASE, 0, o, IMM(k)); return Prog{i}; }, big); }
  add(T, "localbase.sym", [=](Ctx&) { LI i = mk(L_LOCALBASE, 0, R(0), IMM(sw("ofs"))); return Prog{i}; });
  for (int pf : {K.c_PREFETCH_L1, K.c_PREFETCH_L2, K.c_PREFETCH_L3, K.c_PREFETCH_ONCE}) for (auto& m : mf) { auto g = m.f; add(T, "prefetch" + std::to_string(pf) + "." + m.n, [=](Ctx&) { LI i = mk(L_OPSRC, pf, Opnd(), g()); return Prog{i}; }); } 
  // two or three memory operands at related addresses (backends reuse a loaded address between operands)
  { static const i64 bases[] = {0x7ff, 0x800, 0xff8, 0x1000, 0x1008, 0x7ff8, 0x8000, 0x12340, 0x12345ff8, 0x12346000, -0x800, -0x808, -0x1000, -0x8008, 0x7ffff7f8}; int n = 0; 
    for (i64 bs : bases) { auto A = [bs]() { return cw((u64)(bs & 0xfffff) + 0x60000000); }; auto AD = [A](const char* nm) { return vadd(A(), ssx(nm, 14)); }; auto B = [bs] { return cw((u64)bs); }; auto BD = [bs](const char* nm) { return vadd(cw((u64)bs), ssx(nm, 14)); }; std::string id = std::to_string(n++);
      for (int k = 0; k < 13; k++) add(T, "near." + std::to_string(k) + "." + id, [=](Ctx&) -> Prog { int AD_ = K.c_ADD; switch (k) {
        case 0: return {lOp2(AD_, R(0), MEM0(A()), MEM0(AD("dl")))}; case 1: return {lOp1(K.c_MOV, MEM0(AD("dl")), MEM0(A()))}; case 2: return {lOp2(AD_, MEM0(A()), MEM0(AD("dl")), R(1))}; case 3: return {lOp2(AD_, R(0), MEM1(rR(1), B()), MEM1(rR(1), BD("dl")))}; case 4: return {lOp1(K.c_MOV, MEM1(rR(1), BD("dl")), MEM1(rR(1), B()))};
        case 5: return {lOp2(AD_, R(2), MEM1(rR(1), B()), MEM1(rR(2), BD("dl")))}; case 6: return {lOp2(AD_, MEM1(rR(1), B()), MEM1(rR(1), BD("dl")), MEM1(rR(1), BD("dk")))}; case 7: return {lOp2(AD_, MEM0(A()), MEM0(AD("dl")), MEM0(A()))}; case 8: return {lOp1(K.c_MOV_U8, MEM1(rS(0), BD("dl")), MEM1(rR(1), B()))}; case 9: return {lOp2u(K.c_SUB | K.c_SET_Z, MEM0(A()), MEM1(rR(1), BD("dl"))), lFlags(K.c_MOV, R(3), K.c_EQUAL)}; case 10: return {lOp2(AD_, MEM1(rR(1), BD("dl")), MEM1(rR(1), B()), IMM((i64)1))}; case 11: return {lOp2(AD_, MEM2(rR(0), rR(1), 1), MEM1(rR(1), B()), MEM1(rR(1), BD("dl")))};
        default: return {lOp1(K.c_MOV_S16, R(1), MEM1(rR(1), B())), lOp1(K.c_MOV_U16, MEM1(rS(1), BD("dl")), MEM1(rS(1), B()))}; } }); } }
}
static Reg_ r2("mem", memTasks);

// ------------------------------------------------------------------ flags
struct FOp { std::string n; int op; std::vector<int> types; bool cmpLike; };
static std::vector<FOp> flagOps(int f) {
  std::vector<FOp> v; auto a = [&](const std::string& n, int op, std::vector<int> t, bool c = false) { v.push_back({n, op | f, t, c}); };
  int Z = K.c_SET_Z;
  a("add.z", K.c_ADD | Z, {K.c_EQUAL}); a("add.c", K.c_ADD | K.c_SET_CARRY, {K.c_CARRY}); a("add.o", K.c_ADD | K.c_SET_OVERFLOW, {K.c_OVERFLOW}); a("add.zc", K.c_ADD | Z | K.c_SET_CARRY, {K.c_EQUAL, K.c_CARRY}); a("add.zo", K.c_ADD | Z | K.c_SET_OVERFLOW, {K.c_EQUAL, K.c_OVERFLOW});
  a("sub.z", K.c_SUB | Z, {K.c_EQUAL}, true); a("sub.c", K.c_SUB | K.c_SET_CARRY, {K.c_CARRY}, true); a("sub.o", K.c_SUB | K.c_SET_OVERFLOW, {K.c_OVERFLOW}, true); a("sub.zo", K.c_SUB | Z | K.c_SET_OVERFLOW, {K.c_EQUAL, K.c_OVERFLOW}, true); a("sub.zc", K.c_SUB | Z | K.c_SET_CARRY, {K.c_EQUAL, K.c_CARRY}, true);
  a("sub.l", K.c_SUB | K.c_SET_LESS, {K.c_LESS}, true); a("sub.g", K.c_SUB | K.c_SET_GREATER, {K.c_GREATER}, true); a("sub.sl", K.c_SUB | K.c_SET_SIG_LESS, {K.c_SIG_LESS}, true); a("sub.sg", K.c_SUB | K.c_SET_SIG_GREATER, {K.c_SIG_GREATER}, true);
  a("sub.zl", K.c_SUB | Z | K.c_SET_LESS, {K.c_LESS, K.c_EQUAL}, true); a("sub.zg", K.c_SUB | Z | K.c_SET_GREATER, {K.c_EQUAL, K.c_GREATER}, true); a("sub.zsl", K.c_SUB | Z | K.c_SET_SIG_LESS, {K.c_EQUAL, K.c_SIG_LESS}, true); a("sub.zsg", K.c_SUB | Z | K.c_SET_SIG_GREATER, {K.c_SIG_GREATER, K.c_EQUAL}, true);
  a("mul.o", K.c_MUL | K.c_SET_OVERFLOW, {K.c_OVERFLOW});
  for (auto& s : std::vector<std::pair<std::string, int>>{{"and", K.c_AND}, {"or", K.c_OR}, {"xor", K.c_XOR}, {"shl", K.c_SHL}, {"mshl", K.c_MSHL}, {"lshr", K.c_LSHR}, {"mlshr", K.c_MLSHR}, {"ashr", K.c_ASHR}, {"mashr", K.c_MASHR}}) a(s.first + ".z", s.second | Z, {K.c_EQUAL});
  return v; }
static Prog consumers0(int which, std::vector<int> t, int f) {
  int a = t[0], b = t.back(); int mv = f ? K.c_MOV32 : K.c_MOV; Prog p;
  switch (which % 9) {
  case 0: return {lFlags(mv, R(3), a), lFlags(mv, MEM1(rS(2), 8), b ^ 1), lSel(a ^ 1, f, R(4), R(5), R(2))};
  case 1: return {lSel(b, f, R(3), IMM(ssx("simm", 8)), R(3)), lFlags(K.c_AND | f, R(4), a)};
  case 2: return {lJump(b ^ 1, 0), lOp1(K.c_MOV, R(3), IMM((i64)77)), lLabel(0)};
  case 3: return {lFlags(K.c_OR | f | K.c_SET_Z, R(3), a), lFlags(mv, S(2), K.c_EQUAL)};
  case 4: return {lSel(a, f, R(3), MEM1(rS(2), 16), R(4)), lFlags(K.c_XOR | f, MEM1(rS(2), 32), b ^ 1)};
  case 5: return {lOp1(K.c_MOV, R(5), IMM(ssx("mv", THOROUGH ? 24 : 11))), lFlags(mv, R(3), b), lOp1(K.c_MOV_U8, R(4), MEM1(rS(2), ssx("mvd", THOROUGH ? 14 : 5))), lJump(a, 0), lOp1(K.c_MOV, MEM1(rS(2), 64), IMM((i64)5)), lLabel(0)};
  case 6: return {lFlags(K.c_XOR | f, R(3), a ^ 1)};
  case 7: return {lOp1(mv, MEM1(rS(2), 72), R(5)), lOp1(mv, R(5), MEM0(cw(0x60001240))), lFlags(mv, R(0), a ^ 1), lSel(b ^ 1, f, R(4), R(4), R(5))};
  default: return {lSel(b, f, S(0), S(1), S(0)), lSel(a ^ 1, f, R(5), R(4), R(5)), lJump(b, 0), lOp1(mv, R(4), R(3)), lLabel(0)}; } }
// a select consumes the carry flag, so it must be the last user
static Prog consumers(int which, std::vector<int> t, int f) { Prog p = consumers0(which, t, f); auto isC = [](const LI& i) { return (i.k == L_SELECT || i.k == L_OPFLAGS || i.k == L_JUMP) && (i.type & ~1) == K.c_CARRY; }; bool later = false;
  for (size_t n = p.size(); n-- > 0;) { if (!isC(p[n])) { if ((p[n].k == L_SELECT || p[n].k == L_OPFLAGS || p[n].k == L_JUMP) && p[n].type != K.c_JUMP) later = true; continue; } if (p[n].k == L_SELECT && later) p[n] = lFlags(f ? K.c_MOV32 : K.c_MOV, p[n].d, p[n].type); later = true; }
  return p; }
static void flagTasks(Tasks& T) {
  static int fb; fb = THOROUGH ? 33 : 10;
  struct FF { const char* n; std::function<LI(int)> g; bool u; };
  std::vector<FF> ff = {
    {"u.rr", [](int o) { return lOp2u(o, R(1), R(2)); }, true}, {"u.ri", [](int o) { return lOp2u(o, R(1), IMM(ssx("imm", fb))); }, true}, {"u.ir", [](int o) { return lOp2u(o, IMM(ssx("imm", fb)), R(2)); }, true}, {"u.r0", [](int o) { return lOp2u(o, R(0), IMM((i64)0)); }, true}, {"u.mr", [](int o) { return lOp2u(o, MEM1(rR(1), ssx("disp", 9)), R(2)); }, true}, {"u.rm", [](int o) { return lOp2u(o, R(2), MEM1(rR(1), ssx("disp", 9))); }, true}, {"u.mi", [](int o) { return lOp2u(o, MEM1(rR(1), ssx("disp", 9)), IMM(ssx("imm", 12))); }, true}, {"u.same", [](int o) { return lOp2u(o, R(1), R(1)); }, true}, {"u.vv", [](int o) { return lOp2u(o, R(5), R(4)); }, true}, {"u.sv", [](int o) { return lOp2u(o, S(0), S(3)); }, true}, {"u.mm", [](int o) { return lOp2u(o, MEM1(rR(1), 8), SPM(16)); }, true}, {"u.imin", [](int o) { return lOp2u(o, R(1), IMM(cw(1ULL << (o & K.c_32 ? 31 : AI.xl - 1)))); }, true},
    {"rrr", [](int o) { return lOp2(o, R(0), R(1), R(2)); }, false}, {"d=a", [](int o) { return lOp2(o, R(1), R(1), R(2)); }, false}, {"d=b", [](int o) { return lOp2(o, R(2), R(1), R(2)); }, false}, {"all", [](int o) { return lOp2(o, R(1), R(1), R(1)); }, false}, {"rri", [](int o) { return lOp2(o, R(0), R(1), IMM(ssx("imm", fb))); }, false}, {"d=a,i", [](int o) { return lOp2(o, R(1), R(1), IMM(ssx("imm", fb))); }, false}, {"rir", [](int o) { return lOp2(o, R(0), IMM(ssx("imm", fb)), R(1)); }, false}, {"rmr", [](int o) { return lOp2(o, R(0), MEM1(rR(1), ssx("disp", 9)), R(2)); }, false}, {"rrm", [](int o) { return lOp2(o, R(2), R(2), MEM1(rR(1), ssx("disp", 14))); }, false}, {"mrr", [](int o) { return lOp2(o, MEM1(rR(0), ssx("disp", 9)), R(1), R(2)); }, false}, {"mmi", [](int o) { return lOp2(o, MEM1(rR(0), 8), MEM1(rR(0), 8), IMM(ssx("imm", 9))); }, false}, {"mmr", [](int o) { return lOp2(o, SPM(8), SPM(8), R(2)); }, false}, {"vsv", [](int o) { return lOp2(o, R(5), S(0), R(4)); }, false}, {"svr", [](int o) { return lOp2(o, S(3), S(3), R(1)); }, false}, {"cx", [](int o) { return lOp2(o, R(0), R(1), R(x32() ? 2 : 3)); }, false}, {"cx2", [](int o) { return lOp2(o, R(x32() ? 2 : 3), R(1), R(x32() ? 2 : 3)); }, false}, {"ri=0", [](int o) { return lOp2(o, R(0), R(1), IMM((i64)0)); }, false}, {"imin", [](int o) { return lOp2(o, R(0), R(1), IMM(cw(1ULL << (o & K.c_32 ? 31 : AI.xl - 1)))); }, false} };
  for (int w = 0; w <= (AI.xl == 64); w++) { int f = w ? K.c_32 : 0; auto fo = flagOps(f); size_t oi = 0;
    for (auto& o : fo) { size_t fi = 0; for (auto& m : ff) { std::string mn = m.n; bool mulImm = o.n == "mul.o" && !THOROUGH && (mn == "u.ri" || mn == "u.ir" || mn == "u.mi" || mn == "mmi" || mn == "rir" || mn == "rri" || mn == "d=a,i"); for (int rep = 0; rep < 2 && !mulImm; rep++) { int c = (int)((oi * 4 + fi * 2 + rep * 5) % 9); auto g = m.g; int op = o.op; auto ty = o.types; 
          add(T, o.n + (w ? "32." : ".") + m.n + ".c" + std::to_string(c), [=](Ctx&) { Prog p{g(op)}; for (auto& i : consumers(c, ty, f)) p.push_back(i); return p; }); } fi++; } oi++; }
    for (i64 k : {3LL, -1LL, 7LL, 1LL << 20, 0x12345678LL}) { add(T, "mul.o.k" + std::to_string(k) + (w ? "32" : ""), [=](Ctx&) { Prog p{lOp2(K.c_MUL | f | K.c_SET_OVERFLOW, R(0), R(1), IMM(k))}; for (auto& i : consumers((int)(k & 7), {K.c_OVERFLOW}, f)) p.push_back(i); return p; }); }
    // carry chains
    int AD = K.c_ADD | f, AC = K.c_ADDC | f, SB = K.c_SUB | f, SC = K.c_SUBC | f, C = K.c_SET_CARRY; std::string sf = w ? "32" : "";
    for (int sub = 0; sub < 2; sub++) { int A = sub ? SB : AD, B = sub ? SC : AC; std::string n = std::string(sub ? "subc" : "addc") + sf; int cf = K.c_CARRY; int mv = f ? K.c_MOV32 : K.c_MOV;
      add(T, n + ".chain3", [=](Ctx&) { return Prog{lOp2(A | C, R(0), R(0), R(1)), lOp2(B | C, R(2), R(2), R(3)), lOp2(B | C, R(4), R(4), R(5)), lFlags(mv, S(0), cf)}; });
      add(T, n + ".chainm", [=](Ctx&) { return Prog{lOp2(A | C, R(0), R(1), MEM1(rS(0), 8)), lOp2(B | C, MEM1(rS(1), 16), MEM1(rS(1), 16), R(2)), lOp2(B, R(2), R(3), IMM(ssx("imm", fb)))}; });
      add(T, n + ".uc", [=](Ctx&) { return Prog{lOp2u(A | C, R(0), R(1)), lOp2u(B | C, R(2), R(3)), lFlags(mv, R(4), cf ^ 1), lSel(cf, f, R(5), R(5), S(0))}; });
      add(T, n + ".mid", [=](Ctx&) { return Prog{lOp2(A | C, R(0), R(0), IMM(ssx("i1", 17))), lOp1(mv, R(1), IMM(ssx("i2", 17))), lOp1(K.c_MOV, MEM1(rS(0), ssx("disp", 14)), R(2)), lOp2(B | C, R(3), R(1), R(4)), lJump(cf, 0), lOp1(K.c_MOV, R(4), IMM((i64)9)), lLabel(0)}; });
      add(T, n + ".ri0", [=](Ctx&) { return Prog{lOp2u(A | C, R(0), R(1)), lOp2(B | C, R(2), R(2), IMM((i64)0)), lFlags(mv, R(3), cf)}; });
      add(T, n + ".i0r", [=](Ctx&) { return Prog{lOp2u(A | C, R(0), R(1)), lOp2(B | C, R(2), IMM((i64)0), R(3)), lFlags(mv, R(3), cf)}; });
      add(T, n + ".rim1", [=](Ctx&) { return Prog{lOp2u(A | C, R(0), R(1)), lOp2(B | C, R(2), R(1), IMM((i64)-1)), lFlags(mv, R(3), cf)}; });
      add(T, n + ".same", [=](Ctx&) { return Prog{lOp2u(A | C, R(0), R(1)), lOp2(B | C, R(2), R(2), R(2)), lFlags(mv, R(3), cf), lFlags(K.c_AND | f, R(4), cf)}; });
      add(T, n + ".d=b", [=](Ctx&) { return Prog{lOp2u(A | C, R(0), R(1)), lOp2(B | C, R(3), R(2), R(3)), lFlags(mv, R(0), cf)}; });
      add(T, n + ".imm", [=](Ctx&) { return Prog{lOp2u(A | C, R(0), R(1)), lOp2(B | C, R(3), R(2), IMM(ssx("imm", fb))), lFlags(mv, R(0), cf)}; });
      add(T, n + ".imr", [=](Ctx&) { return Prog{lOp2u(A | C, R(0), R(1)), lOp2(B | C, R(3), IMM(ssx("imm", fb)), R(2)), lFlags(mv, R(0), cf)}; });
      add(T, n + ".virt", [=](Ctx&) { return Prog{lOp2(A | C, R(5), R(5), R(4)), lOp2(B | C, S(3), S(3), R(3)), lFlags(mv, R(4), cf)}; });
      add(T, n + ".flagreg", [=](Ctx&) { return Prog{lOp2(A | C | K.c_SET_Z, R(0), R(0), R(1)), lFlags(mv, R(3), K.c_EQUAL), lOp2(B, R(2), R(2), R(4))}; }); }
    // op2cmpz
    for (auto& o : std::vector<std::pair<std::string, int>>{{"add", K.c_ADD}, {"sub", K.c_SUB}, {"and", K.c_AND}, {"or", K.c_OR}, {"xor", K.c_XOR}, {"shl", K.c_SHL}, {"mlshr", K.c_MLSHR}, {"ashr", K.c_ASHR}}) for (int z = 0; z < 2; z++) for (auto& m : ff) { if (m.u) continue; int op = o.second | f, ty = (z ? K.c_JUMP_IF_ZERO : K.c_JUMP_IF_NON_ZERO); auto g = m.g;
      add(T, "cmpz." + o.first + sf + (z ? ".z." : ".nz.") + m.n, [=](Ctx&) { LI i = g(op); i.k = L_OP2CMPZ; i.type = ty; i.lab = 0; return Prog{i, lOp1(K.c_MOV, R(3), IMM((i64)1)), lLabel(0)}; }); }
    for (int v = 0; v < 2; v++) { int op = (v ? K.c_SUB | K.c_SET_LESS : K.c_ADD | K.c_SET_CARRY) | f, t = v ? K.c_LESS : K.c_CARRY; int mv = f ? K.c_MOV32 : K.c_MOV; add(T, "cmpz.var" + std::to_string(v) + sf, [=](Ctx&) { LI i = lOp2(op, R(0), R(1), R(2)); i.k = L_OP2CMPZ; i.type = K.c_JUMP_IF_ZERO; i.lab = 0; return Prog{i, lFlags(mv, R(3), t), lLabel(0)}; }); }
    // select without a flag operation in between, all registers
    for (int k = 0; k < 6; k++) add(T, "sel.form" + std::to_string(k) + sf, [=](Ctx&) { Opnd d[] = {R(0), R(1), R(5), S(2), R(4), R(3)}, a[] = {R(1), IMM(ssx("imm", fb)), MEM1(rS(0), ssx("disp", 14)), R(5), SPM(8), MEM0(cw(0x60000010))}, b[] = {R(0), R(1), R(4), S(3), R(5), R(3)}; return Prog{lOp2u(K.c_SUB | K.c_SET_SIG_GREATER | K.c_SET_Z | f, R(2), S(1)), lSel(K.c_SIG_GREATER, f, d[k], a[k], b[k]), lSel(K.c_NOT_EQUAL, f, d[k], d[k], a[5 - k].k == OREG ? a[5 - k] : R(2))}; });
    for (int t = K.c_EQUAL; t <= K.c_SIG_LESS_EQUAL; t++) add(T, "sel.t" + std::to_string(t) + sf, [=](Ctx&) { int st = t < 2 ? K.c_SET_Z : ((t & ~1) << 10); return Prog{lOp2u(K.c_SUB | st | f, R(2), R(3)), lSel(t, f, R(0), R(1), R(2)), lSel(t, f, R(4), IMM(ssx("imm", 12)), R(4)), lSel(t ^ 1, f, R(1), R(5), R(1))}; });
    // pointer/byte moves and other flag preserving operations between
    for (int k = 0; k < 8; k++) add(T, "keep." + std::to_string(k) + sf, [=](Ctx&) { LI in[] = {lOp1(K.c_MOV, R(3), IMM(sw("imm"))), lOp1(K.c_MOV, MEM0(sw("abs")), R(3)), lOp1(K.c_MOV_S8, R(3), MEM1(rR(4 - 3 * x32()), sw("disp"))), lOp1(K.c_MOV_U16, MEM2(rS(0), rS(1), 1), R(3)), lOp1(K.c_MOV, MEM1(rS(0), 24), MEM1(rS(1), ssx("disp", 20))), lOp1(K.c_MOV32, R(3), R(4)), lOp1(K.c_MOV_S16, R(3), R(4)), lOp1(K.c_MOV, MEM1(rS(2), ssx("disp", 20)), IMM(ssx("imm", fb)))}; Prog p{lOp2(K.c_ADD | f | K.c_SET_Z | K.c_SET_CARRY, R(0), R(0), R(2)), in[k], lFlags(f ? K.c_MOV32 : K.c_MOV, R(5), K.c_CARRY), lFlags(f ? K.c_MOV32 : K.c_MOV, MEM1(rS(2), 8), K.c_NOT_EQUAL)}; return p; }); } }
static Reg_ r3("flags", flagTasks);

// ------------------------------------------------------------------ control flow
static void ctlTasks(Tasks& T) {
  Env sm; 
  auto M = [](int v) { return lOp1(K.c_MOV, R(5), IMM((i64)v)); };
  for (int w = 0; w <= (AI.xl == 64); w++) { int f = w ? K.c_32 : 0; std::string sf = w ? "32" : "";
    struct CF { const char* n; std::function<Opnd()> a, b; };
    std::vector<CF> cf = {{"rr", [] { return R(0); }, [] { return R(1); }}, {"ri", [] { return R(2); }, [] { return IMM(ssx("imm", 33)); }}, {"ri64", [] { return R(2); }, [] { return IMM(sw("imm")); }}, {"ir", [] { return IMM(ssx("imm", 33)); }, [] { return R(1); }}, {"r0", [] { return R(1); }, [] { return IMM((i64)0); }}, {"r1", [] { return R(1); }, [] { return IMM((i64)1); }}, {"r-1", [] { return R(1); }, [] { return IMM((i64)-1); }}, {"0r", [] { return IMM((i64)0); }, [] { return R(1); }}, {"mr", [] { return MEM1(rR(0), ssx("disp", 14)); }, [] { return R(1); }}, {"rm", [] { return R(2); }, [] { return MEM2(rR(0), rR(1), 2); }}, {"mi", [] { return MEM1(rS(0), 8); }, [] { return IMM(ssx("imm", 17)); }}, {"same", [] { return R(1); }, [] { return R(1); }}, {"vv", [] { return R(4); }, [] { return R(3); }}, {"ss", [] { return S(0); }, [] { return S(3); }}, {"ls", [] { return SPM(8); }, [] { return S(1); }}, {"mm", [] { return MEM1(rR(0), 8); }, [] { return MEM1(rR(1), ssx("disp", 9)); }}, {"m0", [] { return MEM0(cw(0x60000010)); }, [] { return IMM((i64)0); }}, {"imax", [] { return R(1); }, [] { return IMM(cw((1ULL << (AI.xl - 1)) - 1)); }}, {"imin", [] { return R(1); }, [] { return IMM(cw(1ULL << 31)); }}};
    for (auto& c : cf) for (int t = K.c_EQUAL; t <= K.c_SIG_LESS_EQUAL; t++) { auto a = c.a, b = c.b; bool rw = (t + (int)T.size()) % 3 == 0; add(T, "cmp." + std::string(c.n) + "." + std::to_string(t) + sf, [=](Ctx&) { return Prog{lCmp(t | (rw ? K.c_REWRITABLE_JUMP : 0), f, a(), b(), 0), M(7), lLabel(0)}; }); }
    for (int t = K.c_EQUAL; t <= K.c_SIG_LESS_EQUAL; t++) add(T, "cmpback." + std::to_string(t) + sf, [=](Ctx&) { return Prog{lJump(K.c_JUMP, 1), lLabel(0), M(3), lJump(K.c_JUMP, 2), lLabel(1), lCmp(t, f, R(0), R(1), 0), M(4), lLabel(2)}; });
    // loops
    add(T, "loop.cmpz" + sf, [=](Ctx& c) { c.initReg[rR(0)] = f && AI.sext32 ? vsext(vzx(var("n.u2", 2), 32), AI.xl) : vzx(var("n.u2", 2), AI.xl); LI i = lOp2(K.c_SUB | f, R(0), R(0), IMM((i64)1)); i.k = L_OP2CMPZ; i.type = K.c_JUMP_IF_NON_ZERO; i.lab = 0; return Prog{lOp2(K.c_ADD | f, R(0), R(0), IMM((i64)1)), lLabel(0), lOp2(K.c_ADD, R(1), R(1), R(2)), i}; });
    add(T, "loop.cmp" + sf, [=](Ctx& c) { c.initReg[rR(0)] = f && AI.sext32 ? vsext(vzx(var("n.u2", 2), 32), AI.xl) : vzx(var("n.u2", 2), AI.xl); return Prog{lLabel(0), lOp2(K.c_ADD, R(1), R(1), R(2)), lOp2(K.c_ADD | f, R(0), R(0), IMM((i64)1)), lCmp(K.c_LESS, f, R(0), IMM((i64)4), 0)}; }); }
  // distances: forward/backward, conditional/unconditional/rewritable
  std::vector<int> sizes = {0, 4, 8, 100, 112, 116, 118, 120, 122, 124, 126, 128, 130, 132, 200, 240, 244, 248, 250, 252, 254, 256, 258, 260, 1000, 1020, 1024, 2040, 2044, 2046, 2048, 2052, 4080, 4084, 4088, 4092, 4096, 8190, 20000, 32744, 32752, 32756, 32760, 32764, 32768, 32772, 65520, 65528, 65532, 65536, 65540, 131052, 131060, 131064, 131068, 131072, 131076, 300000, 1048556, 1048564, 1048568, 1048572, 1048576, 1048580};
  for (int n : sizes) { Env e; e.local = 16; e.scr = 6; e.sav = 2; auto F = lFill(n); std::string s = std::to_string(n); unsigned mp = 40; bool big = n > 200000; bool huge = n > 20000;
    add(T, "dist.jmp." + s, [=](Ctx&) { return Prog{lJump(K.c_JUMP, 0), F, lLabel(0), M(1)}; }, e, mp);
    add(T, "dist.jz." + s, [=](Ctx&) { return Prog{lOp2u(K.c_SUB | K.c_SET_Z, R(0), R(1)), lJump(K.c_EQUAL, 0), M(3), lJump(K.c_JUMP, 0), F, lLabel(0), M(1)}; }, e, mp);
    add(T, "dist.cmpl." + s, [=](Ctx&) { return Prog{lCmp(K.c_SIG_LESS, 0, R(0), R(1), 0), M(3), lJump(K.c_JUMP, 1), F, lLabel(0), M(1), lLabel(1)}; }, e, mp);
    if (big && !THOROUGH && n != 1048576 && n != 1048564) continue;
    add(T, "dist.back." + s, [=](Ctx&) { return Prog{lJump(K.c_JUMP, 0), lLabel(1), M(2), lJump(K.c_JUMP, 2), F, lLabel(0), lCmp(K.c_LESS, 0, R(0), R(1), 1), lOp2u(K.c_SUB | K.c_SET_Z, R(0), R(2)), lJump(K.c_EQUAL, 1), M(5), lLabel(2)}; }, e, mp);
    add(T, "dist.backj." + s, [=](Ctx&) { return Prog{lJump(K.c_JUMP, 0), lLabel(1), M(2), lJump(K.c_JUMP, 2), F, lLabel(0), lJump(K.c_JUMP, 1), lLabel(2)}; }, e, mp);
    add(T, "dist.rw." + s, [=](Ctx&) { return Prog{lJump(K.c_JUMP | K.c_REWRITABLE_JUMP, 0), F, lLabel(0), lCmp(K.c_NOT_EQUAL | K.c_REWRITABLE_JUMP, 0, R(0), IMM((i64)0), 2), M(1), lLabel(2)}; }, e, mp);
    add(T, "dist.two." + s, [=](Ctx&) { return Prog{lCmp(K.c_EQUAL, 0, R(0), IMM((i64)0), 0), lCmp(K.c_EQUAL, 0, R(1), IMM((i64)5), 3), lJump(K.c_JUMP, 0), F, lLabel(3), M(4), lLabel(0), M(1)}; }, e, mp);
    add(T, "dist.addr." + s, [=](Ctx&) { LI a; a.k = L_OPADDR; a.op = K.c_MOV_ADDR; a.d = R(3 - 2 * x32()); a.lab = 0; LI j; j.k = L_IJUMP; j.type = K.c_JUMP; j.a = R(3 - 2 * x32()); j.lab = 0; return Prog{a, j, F, lLabel(0), M(1)}; }, e, mp);
    if (huge) continue;
    add(T, "dist.addrb." + s, [=](Ctx&) { LI a; a.k = L_OPADDR; a.op = K.c_MOV_ADDR; a.d = R(1); a.lab = 1; LI j; j.k = L_IJUMP; j.type = K.c_JUMP; j.a = R(1); j.lab = 1; return Prog{lJump(K.c_JUMP, 0), lLabel(1), M(2), lJump(K.c_JUMP, 2), F, lLabel(0), a, j, lLabel(2)}; }, e, mp); }
  // taken addresses
  for (int op : {K.c_MOV_ADDR, K.c_MOV_ABS_ADDR, K.c_ADD_ABS_ADDR}) for (int fwd = 0; fwd < 2; fwd++) for (auto& d : std::vector<std::pair<std::string, std::function<Opnd()>>>{{"r", [] { return R(0); }}, {"s", [] { return S(1); }}, {"v", [] { return R(5); }}, {"m", [] { return MEM1(rS(0), ssx("disp", 14)); }}, {"l", [] { return SPM(8); }}, {"a", [] { return MEM0(cw(0x60000010)); }}}) {
    if (op == K.c_ADD_ABS_ADDR && d.first != "r" && d.first != "s" && d.first != "v") continue; auto g = d.second; add(T, "addr." + std::to_string(op) + (fwd ? ".f." : ".b.") + d.first, [=](Ctx&) { LI a; a.k = L_OPADDR; a.op = op; a.d = g(); a.lab = 0; if (fwd) return Prog{a, lOp1(K.c_MOV, R(1), R(2)), lLabel(0)}; return Prog{lLabel(0), a}; }); }
  // indirect jumps
  for (auto& d : std::vector<std::pair<std::string, std::function<Opnd()>>>{{"r", [] { return R(0); }}, {"s", [] { return S(1); }}, {"v", [] { return R(5); }}, {"m", [] { return MEM1(rS(0), ssx("disp", 14)); }}, {"l", [] { return SPM(8); }}, {"a", [] { return MEM0(cw(0x60000010)); }}}) { auto g = d.second; add(T, "ijump." + d.first, [=](Ctx&) { LI a; a.k = L_OPADDR; a.op = K.c_MOV_ADDR; a.d = g(); a.lab = 0; LI j; j.k = L_IJUMP; j.type = K.c_JUMP; j.a = g(); j.lab = 0; return Prog{a, j, lOp1(K.c_MOV, R(1), IMM((i64)5)), lLabel(0), lOp1(K.c_MOV, R(2), IMM((i64)6))}; }); }
  add(T, "ijump.x", [=](Ctx&) { LI a; a.k = L_OPADDR; a.op = K.c_MOV_ADDR; a.d = MEM2(rR(0), rR(1), AI.xl == 64 ? 3 : 2); a.lab = 0; LI j; j.k = L_IJUMP; j.type = K.c_JUMP; j.a = a.d; j.lab = 0; return Prog{a, j, lOp1(K.c_MOV, R(1), IMM((i64)5)), lLabel(0), lOp1(K.c_MOV, R(2), IMM((i64)6))}; });
  // aligned labels
  for (int al = 0; al <= 4; al++) for (int pre = 0; pre < 4; pre++) add(T, "align." + std::to_string(al) + "." + std::to_string(pre), [=](Ctx&) { Prog p; for (int k = 0; k < pre; k++) p.push_back(lOp1(K.c_MOV_U8, R(k), MEM1(rS(0), 3 * k))); p.push_back(lJump(K.c_JUMP, 0)); p.push_back(lOp1(K.c_MOV, R(4), R(5))); LI a = lLabel(0); a.op = 1; a.type = al; p.push_back(a); p.push_back(lOp1(K.c_MOV, R(5), IMM((i64)1))); p.push_back(lCmp(K.c_EQUAL, 0, R(0), IMM((i64)0), 1)); p.push_back(lOp1(K.c_MOV, R(5), IMM((i64)2))); LI b = lLabel(1); b.op = 1; b.type = 4 - al; p.push_back(b); return p; });
  for (int al = 0; al <= 4; al++) for (int k = 0; k < 3; k++) add(T, "robuf." + std::to_string(al) + "." + std::to_string(k), [=](Ctx&) { static const int szs[3][3] = {{8, 16, 4}, {1, 3, 64}, {40, 100, 7}}; LI b; b.k = L_ROBUF; b.op = al; b.lab = 5; b.type = szs[k][0] | szs[k][1] << 10 | szs[k][2] << 20; LI a; a.k = L_OPADDR; a.op = K.c_MOV_ABS_ADDR; a.d = R(0); a.lab = 6; return Prog{lOp1(K.c_MOV_U8, R(1), MEM1(rS(0), 3)), a, lJump(K.c_JUMP, 0), b, lLabel(0), lOp1(K.c_MOV, R(5), IMM((i64)2)), lCmp(K.c_EQUAL, 0, R(1), IMM((i64)0), 1), lOp1(K.c_MOV, R(5), IMM((i64)4)), lLabel(1)}; });
  // flags kept across a label
  for (int k = 0; k < 4; k++) add(T, "curflags." + std::to_string(k), [=](Ctx&) { int op[] = {K.c_SUB | K.c_SET_LESS, K.c_ADD | K.c_SET_CARRY, K.c_SUB | K.c_SET_Z, K.c_ADD | K.c_SET_OVERFLOW}; int ty[] = {K.c_LESS, K.c_CARRY, K.c_EQUAL, K.c_OVERFLOW}; int cfl[] = {K.c_SET_LESS | K.c_CURRENT_FLAGS_SUB, K.c_SET_CARRY | K.c_CURRENT_FLAGS_ADD, K.c_SET_Z | K.c_CURRENT_FLAGS_SUB, K.c_SET_OVERFLOW | K.c_CURRENT_FLAGS_ADD}; LI c; c.k = L_CURFL; c.op = cfl[k]; return Prog{lOp2(op[k], R(0), R(0), R(1)), lJump(K.c_JUMP, 0), lOp1(K.c_MOV, R(4), R(5)), lLabel(0), c, lFlags(K.c_MOV, R(3), ty[k]), lJump(ty[k], 1), lOp1(K.c_MOV, R(4), R(5)), lLabel(1)}; }); }
static Reg_ r4("ctl", ctlTasks);
