#include "tasks.h"
Engine* EP;
Registry& registry() { static Registry r; return r; }
V sw(const std::string& n) { return var(n, AI.xl); }
V si32(const std::string& n) { return vsxt(var(n + ".s32", 32), AI.xl); }
Opnd SPM(i64 k) { return MEM1(rSP(), k); } bool THOROUGH = false; V ssx(const std::string& n, int b) { return b == 0 || b >= (int)AI.xl ? sw(n) : vsxt(var(n + ".s" + std::to_string(b), b), AI.xl); }
Opnd IMMS(const std::string& n, int b) { return IMM(THOROUGH ? sw(n) : ssx(n, b)); }
// registers first read as 32-bit data start as 32-bit typed values
void autoTypes(Ctx& c, const Prog& p) {
  { std::set<int> fw; for (auto& i : p) { bool m = i.op & K.c_32; int b = i.op & 0xff; std::vector<std::pair<const Opnd*, bool>> rd; const Opnd* wr = nullptr;
    if (i.k == L_FOP1) { bool toI = b == K.c_CONV_SW_FROM_F64 || b == K.c_CONV_S32_FROM_F64, frI = b >= K.c_CONV_F64_FROM_SW && b <= K.c_CONV_F64_FROM_U32; if (b == K.c_CMP_F64) rd = {{&i.d, m}, {&i.a, m}}; else { if (!frI) rd = {{&i.a, b == K.c_CONV_F64_FROM_F32 ? !m : m}}; if (!toI) wr = &i.d; } }
    else if (i.k == L_FOP2 || i.k == L_FOP2R || i.k == L_FCMP || i.k == L_FSELECT) { rd = {{&i.a, m}, {&i.b, m}}; if (i.k != L_FCMP) wr = &i.d; }
    else if (i.k == L_FSET32 || i.k == L_FSET64) wr = &i.d;
    else if (i.k == L_FMEM || i.k == L_FMEMUPD) { if (i.type & K.c_MEM_STORE) rd = {{&i.d, m}}; else wr = &i.d; }
    else if (i.k == L_FCOPY) { if (b == K.c_COPY_TO_F64) { if (!m && AI.xl == 32 && !i.r2) rd = {{&i.d, false}}; wr = &i.d; } else rd = {{&i.d, m}}; }
    for (auto& x : rd) if (x.first->k == OREG && !fw.count(x.first->r1) && x.second) c.freg32[x.first->r1] = 1;
    if (wr && wr->k == OREG) fw.insert(wr->r1); } }
  std::set<int> written, word; 
  auto addr = [&](const Opnd& o) { if (o.k == OMEM1 || o.k == OMEM2) { word.insert(o.r1); if (o.k == OMEM2) word.insert(o.r2); } };
  for (auto& i : p) {
    bool m32 = i.op & K.c_32; int base = i.op & 0xff; bool rd32 = m32, wr32 = m32;
    bool isF = i.k == L_FOP1 || i.k == L_FOP2 || i.k == L_FOP2R || i.k == L_FCMP || i.k == L_FSET32 || i.k == L_FSET64 || i.k == L_FMEM || i.k == L_FMEMUPD || i.k == L_FSELECT;
    if (i.k >= L_SMOV && i.k <= L_SOP2) { addr(i.a); addr(i.b); bool f = i.op & K.c_SIMD_FLOAT, s = i.op & K.c_SIMD_STORE; if (i.k == L_SREPL && !f && i.a.k == OREG) { if (AI.xl == 64 && (i.op >> 18 & 0x3f) < 3 && !written.count(i.a.r1)) c.reg32[i.a.r1] = 1; } if (i.k == L_SLANE && !f && i.a.k == OREG) { if (s) written.insert(i.a.r1); else if (m32 && !written.count(i.a.r1)) c.reg32[i.a.r1] = 1; } if (i.k == L_SSIGN && i.a.k == OREG) written.insert(i.a.r1); if ((i.k == L_SREPL || (i.k == L_SLANE && !s)) && f && i.a.k == OREG && (i.op >> 18 & 0x3f) == 2) c.freg32[i.a.r1] = 1; continue; }
    if (i.k == L_ATOMIC_LD || i.k == L_ATOMIC_ST) { word.insert(i.a.r1); bool r32 = m32 || base == (K.c_MOV32 & 0xff); if (i.k == L_ATOMIC_LD) written.insert(i.d.r1); else { for (int r : {i.d.r1, i.b.r1}) if (r32 && !written.count(r)) c.reg32[r] = 1; } continue; }
    if (i.k == L_CONST) { addr(i.d); if (i.d.k == OREG) written.insert(i.d.r1); continue; }
    if (i.k == L_FCOPY) { if (base == K.c_COPY_TO_F64) { if (m32 && !written.count(i.a.r1)) c.reg32[i.a.r1] = 1; } else written.insert(i.a.r1); continue; }
    if (isF) { addr(i.d); addr(i.a); addr(i.b); if (i.k == L_FOP1) { if (base == K.c_CONV_F64_FROM_S32 || base == K.c_CONV_F64_FROM_U32) { if (i.a.k == OREG && !written.count(i.a.r1)) c.reg32[i.a.r1] = 1; } if ((base == K.c_CONV_SW_FROM_F64 || base == K.c_CONV_S32_FROM_F64) && i.d.k == OREG) written.insert(i.d.r1); } continue; }
    if (i.k == L_OP1 && (base == K.c_MOV_U32 || base == K.c_MOV_S32 || base == (K.c_MOV32 & 0xff))) rd32 = false;
    if (i.k == L_OP0) { if (base != K.c_LMUL_UW && base != K.c_LMUL_SW && m32) { c.reg32[rR(0)] = 1; c.reg32[rR(1)] = 1; } continue; }
    if (i.k == L_OPFLAGS && (base == K.c_MOV || base == (K.c_MOV32 & 0xff))) rd32 = false;
    for (auto* o : {&i.a, &i.b, &i.c}) { addr(*o); if (o->k == OREG && rd32 && !written.count(o->r1)) c.reg32[o->r1] = 1; }
    addr(i.d); bool dRead = i.k == L_SELECT || i.k == L_OP2R || (i.k == L_OPFLAGS && rd32); if (dRead && i.d.k == OREG && rd32 && !written.count(i.d.r1)) c.reg32[i.d.r1] = 1;
    if ((i.k == L_MEM || i.k == L_MEMUPD) && (i.type & K.c_MEM_STORE)) { if (m32 && !written.count(i.d.r1)) c.reg32[i.d.r1] = 1; if (i.r2 && m32 && !written.count(i.r2)) c.reg32[i.r2] = 1; continue; }
    if (i.d.k == OREG && i.k != L_OP2U && i.k != L_CMP) written.insert(i.d.r1); if (i.r2) written.insert(i.r2); (void)wr32; }
  for (int r : word) if (r < 64) c.reg32[r] = 0; }
Task segTask(const std::string& id, ProgFn f, Env e, unsigned mp) {
  Task t; t.id = id; t.maxPaths = mp; t.fn = [=](Ctx& c) { c.createCompiler(); c.nVscr = e.vscr; c.enter(e.opts, 0, e.scr, e.sav, e.fscr, e.fsav, e.local); Prog p = f(c); autoTypes(c, p); c.runSegment(p); }; return t; }
bool feature(Engine& E, int what) { PathWork w; E.startPath(w); try { return E.concretize(E.call("sljit_has_cpu_feature", {V(what, 32)})) != 0; } catch (PathStop& s) { fprintf(stderr, "feature probe: %s\n", s.why.c_str()); return false; } }

// ------------------------------------------------------------------ integer operations
struct Form { const char* n; Opnd d, a, b; bool symd; };
static V ab() { return vadd(THOROUGH ? sw("abs") : vzx(var("abs.u13", 13), AI.xl), cw(THOROUGH ? 0 : 0x60000000)); }
static Opnd M1(int r, const char* n = "disp") { return MEM1(r, THOROUGH ? ssx(n, 32) : ssx(n, 10)); }
static int PR() { return rR(AI.name == "x86_32" ? 2 : 3); } static Opnd P() { return REG(PR()); } // the preferred shift register
static int VB() { return rR(AI.name == "x86_32" ? 1 : 4); } // a high base register (x86-32 only allows machine registers)
static std::vector<std::pair<std::string, std::function<void(Opnd&, Opnd&, Opnd&)>>> binForms() {
  std::vector<std::pair<std::string, std::function<void(Opnd&, Opnd&, Opnd&)>>> v;
#define F(n, D, A, B) v.push_back({n, [](Opnd& d, Opnd& a, Opnd& b) { d = D; a = A; b = B; }})
  F("rrr", R(0), R(1), R(2)); F("d=a", R(0), R(0), R(1)); F("d=b", R(0), R(1), R(0)); F("same", R(2), R(2), R(2)); F("a=b", R(1), R(2), R(2)); F("srs", S(0), R(1), S(1)); F("vsv", R(5), S(0), R(4)); F("sv", S(3), S(4), R(3));
  F("cx1", P(), R(1), P()); F("cx2", R(1), P(), S(0)); F("cx3", R(0), R(1), P()); F("cx4", P(), P(), R(1)); F("cx5", P(), R(0), R(1)); F("cx6", R(0), P(), R(0)); F("cxm", P(), R(0), M1(PR())); F("mcx", M1(rR(0)), R(1), P()); F("mxc", M1(PR()), R(1), S(1)); F("mcc", M1(rR(0)), M1(rR(0)), P());
  F("rri", R(1), R(2), IMMS()); F("d=a,i", R(0), R(0), IMMS("imm", 32)); F("rir", R(0), IMMS("imm", 32), R(1)); F("d=b,i", R(2), IMMS("imm", 10), R(2)); F("ssi", S(1), S(0), IMMS("imm", 10)); F("vvi", R(5), R(4), IMMS("imm", 10)); F("vi=", R(4), R(4), IMMS("imm", 10)); F("rii", R(0), IMMS("i1", 13), IMMS("i2", 9));
  F("mrr", M1(rS(0)), R(0), R(1)); F("rmr", R(0), M1(rR(1)), R(2)); F("rrm", R(0), R(2), M1(rR(1))); F("mmr", M1(rS(0)), M1(rS(0)), R(1)); F("mmi", M1(rS(0)), M1(rS(0)), IMMS("imm", 9)); F("amx", MEM0(ab()), R(0), MEM2(rR(1), rR(2), 2)); F("xma", MEM2(rS(0), rR(1), 1), M1(rS(1)), MEM0(ab()));
  F("l-l", SPM(16), R(1), SPM(24)); F("lli", SPM(8), SPM(8), IMMS("imm", 9)); F("base", R(1), M1(rR(1)), IMMS("imm", 9)); F("base2", R(1), R(2), M1(rR(1))); F("mim", M1(rR(0)), IMMS("imm", 9), M1(rR(1), "disp2")); F("mri", M1(rS(2)), R(2), IMMS("imm", 9)); F("mmr2", M1(rS(0)), R(3), M1(rS(0)));
  F("vmv", R(5), M1(VB()), R(3)); F("mvv", M1(VB()), R(5), R(4)); F("mmm", M1(rR(0)), MEM1(rR(1), 24), MEM1(rR(2), -8)); 
#undef F
  return v; }
struct NOp { const char* n; int op; };
static std::vector<NOp> binOps() { return {{"add", K.c_ADD}, {"sub", K.c_SUB}, {"mul", K.c_MUL}, {"and", K.c_AND}, {"or", K.c_OR}, {"xor", K.c_XOR}, {"shl", K.c_SHL}, {"mshl", K.c_MSHL}, {"lshr", K.c_LSHR}, {"mlshr", K.c_MLSHR}, {"ashr", K.c_ASHR}, {"mashr", K.c_MASHR}, {"rotl", K.c_ROTL}, {"rotr", K.c_ROTR}}; }
static bool isShiftLike(int o) { return o == K.c_SHL || o == K.c_MSHL || o == K.c_LSHR || o == K.c_MLSHR || o == K.c_ASHR || o == K.c_MASHR || o == K.c_ROTL || o == K.c_ROTR; }
static void intTasks(Tasks& T) {
  for (int w32 = 0; w32 <= (AI.xl == 64); w32++) {
    int f = w32 ? K.c_32 : 0; std::string sfx = w32 ? "32" : "";
    for (auto& fm : binForms()) for (auto& op : binOps()) { auto g = fm.second; int o = op.op | f; T.push_back(segTask("op2." + std::string(op.n) + sfx + "." + fm.first, [=](Ctx&) { LI i; i.k = L_OP2; i.op = o; g(i.d, i.a, i.b); return Prog{i}; })); }
    // carry users without flag output
    for (auto& fm : binForms()) for (int sub = 0; sub < 2; sub++) { auto g = fm.second; T.push_back(segTask(std::string(sub ? "op2.subc" : "op2.addc") + sfx + "." + fm.first, [=](Ctx&) { LI p; p.k = L_OP2U; p.op = (sub ? K.c_SUB : K.c_ADD) | f | K.c_SET_CARRY; p.a = S(3); p.b = S(4); LI i; i.k = L_OP2; i.op = (sub ? K.c_SUBC : K.c_ADDC) | f; g(i.d, i.a, i.b); return Prog{p, i}; })); }
    // op1
    std::vector<NOp> u = {{"mov", w32 ? K.c_MOV32 : K.c_MOV}, {"mov_u8", K.c_MOV_U8 | f}, {"mov_s8", K.c_MOV_S8 | f}, {"mov_u16", K.c_MOV_U16 | f}, {"mov_s16", K.c_MOV_S16 | f}, {"clz", K.c_CLZ | f}, {"ctz", K.c_CTZ | f}, {"rev", K.c_REV | f}, {"rev_u16", K.c_REV_U16 | f}, {"rev_s16", K.c_REV_S16 | f}};
    if (AI.xl == 64 && !w32) { u.push_back({"mov_u32", K.c_MOV_U32}); u.push_back({"mov_s32", K.c_MOV_S32}); u.push_back({"rev_u32", K.c_REV_U32}); u.push_back({"rev_s32", K.c_REV_S32}); }
    if (!w32) u.push_back({"mov_p", K.c_MOV_P});
    std::vector<std::pair<std::string, std::function<void(Opnd&, Opnd&)>>> uf;
#define F(n, D, A) uf.push_back({n, [](Opnd& d, Opnd& a) { d = D; a = A; }})
    F("rr", R(0), R(1)); F("same", R(2), R(2)); F("sr", S(0), R(1)); F("vs", R(5), S(1)); F("sv", S(2), R(4)); F("vv", R(3), R(5)); F("ss", S(4), S(3)); F("rm", R(0), M1(rR(1))); F("base", R(1), M1(rR(1))); F("mr", M1(rS(0)), R(2)); F("mm", M1(rS(0)), M1(rS(1), "disp2")); F("mm=", M1(rS(0)), M1(rS(0))); F("mx", R(2), MEM2(rR(0), rR(1), 3)); F("xm", MEM2(rR(0), rS(1), 0), R(2)); F("ra", R(0), MEM0(ab())); F("ar", MEM0(ab()), R(3)); F("lr", SPM(8), R(1)); F("rl", R(1), SPM(8)); F("ll", SPM(8), SPM(16)); F("vm", R(5), M1(VB())); F("mv", M1(VB()), R(5)); F("bx", R(1), MEM2(rR(0), rR(1), 1)); F("mself", M1(rR(0)), R(0)); F("xself", MEM2(rR(0), rR(2), 1), R(2));
#undef F
    for (auto& op : u) { for (auto& fm : uf) { auto g = fm.second; int o = op.op; T.push_back(segTask("op1." + std::string(op.n) + sfx + "." + fm.first, [=](Ctx&) { LI i; i.k = L_OP1; i.op = o; g(i.d, i.a); return Prog{i}; })); }
      if (std::string(op.n).compare(0, 3, "mov") == 0) { int o = op.op; T.push_back(segTask("op1." + std::string(op.n) + sfx + ".ri", [=](Ctx&) { LI i; i.k = L_OP1; i.op = o; i.d = R(0); i.a = IMMS(); return Prog{i}; })); T.push_back(segTask("op1." + std::string(op.n) + sfx + ".mi", [=](Ctx&) { LI i; i.k = L_OP1; i.op = o; i.d = M1(rS(0)); i.a = IMMS(); return Prog{i}; })); T.push_back(segTask("op1." + std::string(op.n) + sfx + ".vi", [=](Ctx&) { LI i; i.k = L_OP1; i.op = o; i.d = R(5); i.a = IMMS(); return Prog{i}; })); T.push_back(segTask("op1." + std::string(op.n) + sfx + ".xi", [=](Ctx&) { LI i; i.k = L_OP1; i.op = o; i.d = MEM2(rR(1), rS(1), 2); i.a = IMMS(); return Prog{i}; })); } }
    // op0
    std::vector<NOp> z = {{"divmod_u", (w32 ? K.c_DIVMOD_U32 : K.c_DIVMOD_UW)}, {"divmod_s", w32 ? K.c_DIVMOD_S32 : K.c_DIVMOD_SW}, {"div_u", w32 ? K.c_DIV_U32 : K.c_DIV_UW}, {"div_s", w32 ? K.c_DIV_S32 : K.c_DIV_SW}};
    if (!w32) { z.push_back({"lmul_u", K.c_LMUL_UW}); z.push_back({"lmul_s", K.c_LMUL_SW}); z.push_back({"nop", K.c_NOP}); z.push_back({"endbr", K.c_ENDBR}); z.push_back({"membar", K.c_MEMORY_BARRIER}); }
    for (auto& op : z) for (int sc : {2, 3, 6}) { int o = op.op; Env e; e.scr = sc; e.sav = sc == 3 ? 2 : sc == 2 ? 0 : 5; T.push_back(segTask("op0." + std::string(op.n) + sfx + ".s" + std::to_string(sc), [=](Ctx&) { LI i; i.k = L_OP0; i.op = o; return Prog{i}; }, e)); }
    // shift_into
    std::vector<std::pair<std::string, std::function<void(LI&)>>> sf;
#define F(n, D, A, B, C) sf.push_back({n, [](LI& i) { i.d = D; i.a = A; i.b = B; i.c = C; }})
    F("rrrr", R(0), R(1), R(2), R(3)); F("d=a", R(0), R(0), R(1), R(2)); F("d=c", R(2), R(0), R(1), R(2)); F("a=b", R(0), R(1), R(1), R(2)); F("imm", R(0), R(1), R(2), IMMS()); F("imm d=a", R(0), R(0), R(1), IMMS());  F("imm a=b", R(0), R(1), R(1), IMMS()); F("mem", R(0), R(1), R(2), M1(rS(0))); F("cx", P(), R(1), S(0), R(0)); F("cxd", P(), R(1), S(0), P()); F("cx2", R(0), P(), R(1), P()); F("cx3", R(0), P(), R(1), R(0)); F("cx4", R(0), R(1), P(), R(0)); F("cx5", S(0), R(1), P(), R(0)); F("cxm", R(0), R(1), P(), M1(rR(0))); F("cxm2", R(0), P(), R(1), MEM2(rR(0), PR(), 1)); F("cxm3", P(), P(), R(0), M1(PR())); F("cxm4", P(), R(1), R(0), M1(PR())); F("cxi", R(0), P(), R(1), IMMS()); F("virt3", R(5), R(4), R(3), M1(rR(0))); F("virt4", P(), R(4), R(5), MEM2(rR(0), rR(1), 2)); F("virt5", R(5), P(), R(3), M1(rR(1))); F("virt6", R(0), R(5), R(4), P()); F("virt7", R(5), R(1), R(3), P()); F("virt8", R(5), R(1), P(), R(0)); F("virt9", R(5), P(), R(0), M1(rR(1))); F("virt", R(5), R(4), R(3), R(0)); F("virt2", S(3), R(4), S(4), R(5)); F("d=a=c", R(1), R(1), R(0), R(1)); F("d=a=cx", P(), P(), R(0), R(1)); F("vc=", R(4), R(1), R(5), R(4)); F("d=base", R(1), R(0), R(2), M1(rR(1)));
#undef F
    for (auto& op : std::vector<NOp>{{"shl", K.c_SHL}, {"lshr", K.c_LSHR}, {"mshl", K.c_MSHL}, {"mlshr", K.c_MLSHR}}) for (int nz = 0; nz < 2; nz++) for (auto& fm : sf) { if (nz && fm.first.compare(0, 3, "imm") == 0) continue; auto g = fm.second; int o = op.op | f | (nz ? K.c_SHIFT_INTO_NON_ZERO : 0); T.push_back(segTask("shift_into." + std::string(op.n) + sfx + (nz ? ".nz." : ".") + fm.first, [=](Ctx&) { LI i; i.k = L_SHINTO; i.op = o; g(i); return Prog{i}; })); }
    // muladd
    for (auto& fm : binForms()) { Opnd d, a, b; if (fm.first[0] == 'm' || fm.first[0] == 'x' || fm.first[0] == 'l' || fm.first == "amx") continue; auto g = fm.second; T.push_back(segTask("muladd" + sfx + "." + fm.first, [=](Ctx&) { LI i; i.k = L_OP2R; i.op = K.c_MULADD | f; g(i.d, i.a, i.b); return Prog{i}; })); } }
  (void)isShiftLike; }
static Reg_ r1("int", intTasks);
