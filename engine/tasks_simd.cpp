// C12: vector and atomic operations
#include "tasks.h"
static LI mk(int k, int op, Opnd d = Opnd(), Opnd a = Opnd(), Opnd b = Opnd(), int r2 = 0) { LI i; i.k = k; i.op = op; i.d = d; i.a = a; i.b = b; i.r2 = r2; return i; }
LI lOp1(int op, Opnd d, Opnd a); LI lFlags(int op, Opnd d, int t); LI lJump(int t, int lab); LI lLabel(int lab); LI lSel(int t, int f32, Opnd d, Opnd a, Opnd b);
static bool x32() { return AI.name == "x86_32"; } static bool x86() { return AI.isa == "x86"; }
typedef std::function<Prog(Ctx&)> PF; typedef std::function<Opnd()> OF;
static int OPT = 0; static std::string SFX;
static void add(Tasks& T, const std::string& id, PF f, int local = 64) { Env e; e.fscr = e.vscr = AI.nFscratch; e.local = local; e.opts = OPT; T.push_back(segTask(id + SFX, f, e, id.find(".full") != std::string::npos ? 600 : id.find(".a.") != std::string::npos || id.find(".aW.") != std::string::npos ? 300 : 60)); }
static Opnd VR(int i) { return REG(1 + i); }
static int RS(int s) { return s << 12; } static int ES(int e) { return e << 18; } static int E2(int e) { return e << 24; }
static LI ldv(int v, int rs) { return mk(L_SMOV, RS(rs), VR(v), MEM0(cw(0x60000000 + 64 * v))); }
static LI stv(int v, int rs) { return mk(L_SMOV, RS(rs) | K.c_SIMD_STORE, VR(v), MEM0(cw(0x60010000 + 64 * v))); }
struct FO { std::string n; OF f; };
static std::vector<FO> mems() { int vb = rR(x32() ? 1 : 4); return {
  {"m", [] { return MEM1(rR(1), ssx("disp", 17)); }}, {"m0", [] { return MEM1(rR(2), 0); }}, {"mS", [] { return MEM1(rS(1), ssx("disp", 11)); }}, {"mV", [=] { return MEM1(vb, ssx("disp", 13)); }},
  {"a", [] { return MEM0(vadd(vzx(var("abs.u18", 18), AI.xl), cw(0x60000000))); }}, {"aW", [] { return MEM0(x86() ? sw("abs") : vadd(vzx(var("abs.u18", 18), AI.xl), cw(0x60000000))); }}, {"x0", [] { return MEM2(rR(1), rR(2), 0); }}, {"x2", [] { return MEM2(rR(0), rS(0), 2); }}, {"x3", [] { return MEM2(rS(1), rR(2), 3); }}, {"xx", [] { return MEM2(rR(1), rR(1), 1); }},
  {"s0", [] { return SPM(0); }}, {"s16", [] { return SPM(16); }}, {"sb", [] { return SPM(32736); }} }; }
static int loc(const FO& m) { return m.n == "sb" ? 32768 : 64; }
static u32 hs(u32 x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; x ^= x >> 16; return x; }
static void simdTasks1(Tasks& T) {
  if (!feature(*EP, K.c_HAS_SIMD)) return; auto ms = mems(); u32 n = 0; int L = AI.nFscratch - 1; auto N = [](int x) { return std::to_string(x); };
  std::vector<int> sizes = x86() ? std::vector<int>{4, 5} : std::vector<int>{3, 4}; std::vector<std::pair<int,int>> vp{{0, 1}, {1, 0}, {L, 2}, {2, L}, {0, 0}, {L, L}, {3, 5 > L ? 2 : 5}};
  auto pick = [&]() -> const FO& { return ms[hs(n++) % ms.size()]; }; auto pv = [&] { return vp[hs(n++ * 3 + 1) % vp.size()]; }; auto al = [](const FO& m, int a) { return m.n[0] == 's' && a > 2 ? 2 : a; };
  for (int rs : sizes) for (int fl = 0; fl < 2; fl++) { int F = fl ? K.c_SIMD_FLOAT : 0; std::string p = N(8 << rs) + (fl ? "f" : "i");
    for (int es = fl ? 2 : 0; es <= std::min(3, rs); es++) { int ty = RS(rs) | ES(es) | F; std::string q = p + N(8 << es) + ".";
      // moves
      if (es == 3 || es == 2 || !fl) { for (auto& m : ms) { if (!THOROUGH && es < 2 && (n++ & 1)) continue; OF g = m.f; int a = al(m, (int)(hs(n++) % (rs + 1))); int v = pv().first; int t = ty | E2(a);
          add(T, "ld." + q + m.n + ".a" + N(a) + ".v" + N(v), [=](Ctx&) { return Prog{mk(L_SMOV, t, VR(v), g()), stv(v, rs)}; }, loc(m)); add(T, "st." + q + m.n + ".a" + N(a) + ".v" + N(v), [=](Ctx&) { return Prog{ldv(v, rs), mk(L_SMOV, t | K.c_SIMD_STORE, VR(v), g())}; }, loc(m)); }
        for (int a = 0; a <= rs; a++) { int t = ty | E2(a); add(T, "lda." + q + N(a), [=](Ctx&) { return Prog{mk(L_SMOV, t, VR(1), MEM1(rR(1), 0)), stv(1, rs)}; }); add(T, "sta." + q + N(a), [=](Ctx&) { return Prog{ldv(1, rs), mk(L_SMOV, t | K.c_SIMD_STORE, VR(1), MEM1(rR(1), ssx("disp", 10)))}; }); }
        for (auto& v : vp) { int d = v.first, s = v.second; add(T, "mv." + q + N(d) + "." + N(s), [=](Ctx&) { return Prog{ldv(d, rs), ldv(s, rs), mk(L_SMOV, ty, VR(d), VR(s)), stv(d, rs), stv(s, rs)}; }); add(T, "mvs." + q + N(d) + "." + N(s), [=](Ctx&) { return Prog{ldv(d, rs), ldv(s, rs), mk(L_SMOV, ty | K.c_SIMD_STORE, VR(s), VR(d)), stv(d, rs), stv(s, rs)}; }); } }
      bool gp = !fl && !(AI.xl == 32 && es == 3); 
      if (es < rs) {
        // replicate
        for (auto& m : ms) { OF g = m.f; int v = pv().first; add(T, "repl." + q + m.n + ".v" + N(v), [=](Ctx&) { return Prog{mk(L_SREPL, ty, VR(v), g()), stv(v, rs)}; }, loc(m)); }
        if (gp) { for (int k = 0; k < 5; k++) { Opnd r[] = {R(0), R(3), S(0), R(5), R(1)}; Opnd o = r[k]; int v = k == 1 ? L : k; add(T, "repl." + q + "r" + N(k), [=](Ctx&) { return Prog{mk(L_SREPL, ty, VR(v), o), stv(v, rs)}; }); }
          if (AI.isa == "a64") { // every immediate form: one byte window in each position over several backgrounds, and the full element
            for (u64 bg : {0ULL, ~0ULL, 0xffULL, 0xffffULL, ~0xffULL, ~0xffffULL, 0xffff0000ffffULL}) for (int sh = 0; sh < (8 << es); sh += THOROUGH ? 4 : es < 2 ? 4 : es == 2 ? 6 : 14) { u64 mk64 = 0xffULL << sh; char nm[60]; snprintf(nm, 60, "w%llx.%d", (unsigned long long)bg, sh); add(T, "repl." + q + nm, [=](Ctx&) { return Prog{mk(L_SREPL, ty, VR(2), IMM(vor(vshl(vzx(var("imm.u8", 8), 64), V(sh, 64)), V(bg & ~mk64, 64)))), stv(2, rs)}; }); } add(T, "repl." + q + "full", [=](Ctx&) { return Prog{mk(L_SREPL, ty, VR(2), IMM(sw("imm"))), stv(2, rs)}; }); }
          else for (int b : {9, 17, 0}) add(T, "repl." + q + "i" + N(b), [=](Ctx&) { return Prog{mk(L_SREPL, ty, VR(2), IMM(b ? ssx("imm", b) : sw("imm"))), stv(2, rs)}; });
          std::vector<u64> cs{0, ~0ULL, 1, 0xff, 0x100, 0xff00, 0xffff, 0x10000, 0x7f000000, 0x80, 0x80000000, 0xffff0000ffffULL, 0x5a5a5a5a5a5a5a5aULL, 0xff00ff00ff00ff00ULL, 0x123456789abcdef0ULL, 0x3ff0000000000000ULL, 0xffULL << 56, 0x1234, 0xffffff12, 0xffff12ff, 0x12ffffff, 0x00ff00ff, 0x0000ffff}; for (u64 c : cs) add(T, "repl." + q + "c" + std::to_string(c), [=](Ctx&) { return Prog{mk(L_SREPL, ty, VR(0), IMM(cw((i64)c))), stv(0, rs)}; }); }
        if (fl) { add(T, "repl." + q + "zero", [=](Ctx&) { return Prog{mk(L_SREPL, ty, VR(L), IMM((i64)0)), stv(L, rs)}; }); for (auto& v : vp) { int d = v.first, s = v.second; add(T, "repl." + q + "f" + N(d) + "." + N(s), [=](Ctx&) { return Prog{mk(L_SREPL, ty, VR(d), FREG(1 + s)), stv(d, rs)}; }); } }
        // lanes
        int lanes = 1 << (rs - es); for (int ln = 0; ln < lanes; ln++) {
          for (int z = 0; z < 2; z++) { int t = ty | (z ? K.c_SIMD_LANE_ZERO : 0); std::string l = q + N(ln) + (z ? "z." : "."); auto pre = [=](int v) { return ldv(v, rs); };
            for (int k = 0; k < (ln < 2 || THOROUGH ? 4 : 2); k++) { auto& m = pick(); OF g = m.f; int v = pv().first; add(T, "lnld." + l + m.n + ".v" + N(v), [=](Ctx&) { return Prog{pre(v), mk(L_SLANE, t, VR(v), g(), Opnd(), ln), stv(v, rs)}; }, loc(m)); }
            if (gp) for (int f = 0; f < (es < 3 ? 2 : 1); f++) { if (f && AI.xl == 32) continue; int w = f ? K.c_32 : 0; for (int k = 0; k < 3; k++) { Opnd r[] = {R(0), S(1), R(5), R(3), R(1)}; Opnd o = r[hs(n++) % 5]; int v = pv().first; add(T, "lnr." + l + (f ? "w" : "") + N(k), [=](Ctx&) { return Prog{pre(v), mk(L_SLANE, t | w, VR(v), o, Opnd(), ln), stv(v, rs)}; }); }
              add(T, "lni." + l + (f ? "w" : ""), [=](Ctx&) { return Prog{pre(1), mk(L_SLANE, t | w, VR(1), IMM(ssx("imm", 12)), Opnd(), ln), stv(1, rs)}; }); }
            if (fl) for (auto& v : vp) { int d = v.first, s = v.second; if (d == s && ln > 1 && !THOROUGH) continue; add(T, "lnf." + l + N(d) + "." + N(s), [=](Ctx&) { return Prog{pre(d), mk(L_SLANE, t, VR(d), FREG(1 + s), Opnd(), ln), stv(d, rs)}; }); } }
          std::string l = q + N(ln) + ".";
          for (int k = 0; k < (ln < 2 || THOROUGH ? 4 : 2); k++) { auto& m = pick(); OF g = m.f; int v = pv().first; int f = gp && es < 3 && AI.xl == 64 && (k & 1) ? K.c_32 : 0; add(T, "lnst." + l + m.n + N(k) + ".v" + N(v), [=](Ctx&) { return Prog{ldv(v, rs), mk(L_SLANE, ty | f | K.c_SIMD_STORE, VR(v), g(), Opnd(), ln), stv(v, rs)}; }, loc(m)); }
          if (gp) for (int sg = 0; sg < 2; sg++) for (int f = 0; f < (es < 3 && AI.xl == 64 ? 2 : 1); f++) for (int k = 0; k < 2; k++) { Opnd r[] = {R(0), S(1), R(5), R(3), R(1)}; Opnd o = r[hs(n++) % 5]; int v = pv().first, t = ty | K.c_SIMD_STORE | (sg ? K.c_SIMD_LANE_SIGNED : 0) | (f ? K.c_32 : 0); add(T, "lnx." + l + (sg ? "s" : "u") + (f ? "w" : "") + N(k), [=](Ctx&) { return Prog{ldv(v, rs), mk(L_SLANE, t, VR(v), o, Opnd(), ln), stv(v, rs)}; }); }
          if (fl) for (auto& v : vp) { int d = v.first, s = v.second; add(T, "lnxf." + l + N(d) + "." + N(s), [=](Ctx&) { Prog p{ldv(s, rs), mk(L_SLANE, ty | K.c_SIMD_STORE, VR(s), FREG(1 + d), Opnd(), ln)}; if (d != s) p.push_back(stv(s, rs)); return p; }); }
          for (auto& v : vp) { int d = v.first, s = v.second; if (!THOROUGH && ln > 3 && (n++ & 1)) continue; add(T, "lnrep." + l + N(d) + "." + N(s), [=](Ctx&) { Prog p{ldv(s, rs), mk(L_SLREPL, ty, VR(d), VR(s), Opnd(), ln), stv(d, rs)}; if (d != s) p.push_back(stv(s, rs)); return p; }); } }
        // extension
        for (int e2 = es + 1; e2 < rs && e2 <= 3; e2++) { if (fl && es != 2) continue; for (int sg = 0; sg < (fl ? 1 : 2); sg++) { int t = ty | E2(e2) | (sg ? K.c_SIMD_EXTEND_SIGNED : 0); std::string l = q + N(8 << e2) + (sg ? "s." : ".");
            for (auto& m : ms) { OF g = m.f; int v = pv().first; add(T, "ext." + l + m.n + ".v" + N(v), [=](Ctx&) { return Prog{mk(L_SEXT, t, VR(v), g()), stv(v, rs)}; }, loc(m)); }
            for (auto& v : vp) { int d = v.first, s = v.second; add(T, "ext." + l + N(d) + "." + N(s), [=](Ctx&) { Prog p{ldv(s, rs), mk(L_SEXT, t, VR(d), VR(s)), stv(d, rs)}; if (d != s) p.push_back(stv(s, rs)); return p; }); } } }
        // sign bits
        for (int f = 0; f < (AI.xl == 64 ? 2 : 1); f++) for (int k = 0; k < 9; k++) { int v = pv().first, t = ty | K.c_SIMD_STORE | (f ? K.c_32 : 0); Opnd r[] = {R(0), S(1), R(5), R(3), R(1)}; const FO& m = k < 5 ? ms[0] : pick(); OF g = m.f; Opnd o = k < 5 ? r[k] : Opnd(); if (k == 8) v = 0; if (k == 7) v = L;
          add(T, "sign." + q + (f ? "w." : ".") + N(k), [=](Ctx&) { return Prog{ldv(v, rs), mk(L_SSIGN, t, VR(v), k < 5 ? o : g()), stv(v, rs)}; }, loc(m)); } }
      // two operands
      for (int o : {K.c_SIMD_OP2_AND, K.c_SIMD_OP2_OR, K.c_SIMD_OP2_XOR, K.c_SIMD_OP2_SHUFFLE}) { if (o == K.c_SIMD_OP2_SHUFFLE && (fl || es)) continue; int t = ty | o; std::string l = N(o) + "." + q;
        struct T3 { int d, a, b; }; for (auto& x : std::vector<T3>{{0, 1, 2}, {0, 0, 1}, {0, 1, 0}, {1, 1, 1}, {L, 0, 1}, {0, L, 1}, {0, 1, L}, {L, 2, L}, {L, L, 2}, {1, L, L}}) { if (!THOROUGH && es < 2 && o != K.c_SIMD_OP2_SHUFFLE && (n++ & 1)) continue; add(T, "op" + l + N(x.d) + "." + N(x.a) + "." + N(x.b), [=](Ctx&) { Prog p{ldv(x.a, rs)}; if (x.a != x.b) p.push_back(ldv(x.b, rs)); p.push_back(mk(L_SOP2, t, VR(x.d), VR(x.a), VR(x.b))); p.push_back(stv(x.d, rs)); if (x.a != x.d) p.push_back(stv(x.a, rs)); if (x.b != x.d && x.b != x.a) p.push_back(stv(x.b, rs)); return p; }); }
        for (auto& m : ms) { if (!THOROUGH && es != 2 && es != 3 && (n++ & 1)) continue; OF g = m.f; auto v = pv(); int d = v.first, a = v.second, aa = al(m, (int)(hs(n++) % (rs + 1))); int tt = t | E2(aa); add(T, "op" + l + m.n + ".a" + N(aa) + "." + N(d) + "." + N(a), [=](Ctx&) { Prog p{ldv(a, rs), mk(L_SOP2, tt, VR(d), VR(a), g()), stv(d, rs)}; if (d != a) p.push_back(stv(a, rs)); return p; }, loc(m)); }
        for (int a = 0; a <= rs; a++) { int tt = t | E2(a); add(T, "opa" + l + N(a), [=](Ctx&) { return Prog{ldv(1, rs), mk(L_SOP2, tt, VR(0), VR(1), MEM1(rR(2), ssx("disp", 9))), stv(0, rs)}; }); add(T, "opb" + l + N(a), [=](Ctx&) { return Prog{ldv(1, rs), mk(L_SOP2, tt, VR(1), VR(1), MEM1(rS(2), 0)), stv(1, rs)}; }); } } } } }
static void simdTasks(Tasks& T) { OPT = 0; SFX = ""; simdTasks1(T); if (AI.name == "x86_64") { OPT = K.c_ENTER_USE_VEX; SFX = ".vex"; simdTasks1(T); } OPT = 0; SFX = ""; }
static Reg_ rg1("simd", simdTasks);

// read-modify-write operations. One side of the pair runs alone: the memory then holds an arbitrary value (another thread
// may have written it), so both outcomes of the store are decided; with the load in front it has to succeed.
static void atomTasks(Tasks& T) {
  if (!feature(*EP, K.c_HAS_ATOMIC)) return; auto S = [](int x) { return std::to_string(x); };
  std::vector<std::pair<std::string,int>> ops{{"mov", K.c_MOV}, {"u8", K.c_MOV_U8}, {"u16", K.c_MOV_U16}, {"mov32", K.c_MOV32}, {"p", K.c_MOV_P}, {"s8", K.c_MOV_S8}, {"s16", K.c_MOV_S16}};
  if (AI.xl == 64) { ops.push_back({"u32", K.c_MOV_U32}); ops.push_back({"s32", K.c_MOV_S32}); ops.push_back({"u8_32", K.c_MOV_U8 | K.c_32}); ops.push_back({"u16_32", K.c_MOV_U16 | K.c_32}); }
  for (auto& o : ops) for (int md = 0; md < 3; md++) { int op = o.second | (md == 1 ? K.c_ATOMIC_USE_CAS : md == 2 ? K.c_ATOMIC_USE_LS : 0); std::string q = o.first + (md == 1 ? ".cas." : md == 2 ? ".ls." : "."); int b = op & 0xff; bool w32 = b == (K.c_MOV32 & 0xff) || (op & K.c_32); int mv = w32 ? K.c_MOV32 : K.c_MOV, f32 = w32 ? K.c_32 : 0; int st = op | (K.c_ATOMIC_STORED << 10);
    auto at = [&](const std::string& id, PF f) { int raceOp = op; T.push_back(segTask("at." + id, [=](Ctx& c) { char bf[40]; snprintf(bf, 40, "race %x", raceOp); c.replayExtra.push_back(bf); return f(c); }, Env(), 60)); };
    std::vector<int> rg{rR(0), rR(1), rR(2), rR(3), rR(5), rS(0), rS(1), rS(4)}; std::vector<int> mr{rR(0), rR(1), rR(2), rS(0), rS(1)}; if (!x32()) mr.push_back(rR(5)); if (x32()) { rg = {rR(0), rR(1), rR(2), rR(3), rR(4), rS(0), rS(1), rS(3)}; }
    bool rare = (md == (x86() ? 2 : 1) && AI.variant != "lse") || o.first[0] == 's';
    for (int d : rg) for (int m : mr) if (!rare || d == m) at("ld." + q + S(d) + "." + S(m), [=](Ctx&) { return Prog{mk(L_ATOMIC_LD, op, REG(d), REG(m))}; });
    int n = 0; for (int s : rg) for (int m : mr) for (int t : rg) { if (t == m || (t == s && !x86())) continue; if (s == t) continue; n++; if (rare && n % 60) continue; if (!THOROUGH && md && n % 7) continue; if (!THOROUGH && (b == K.c_MOV_P || (op & K.c_32)) && n % 5) continue; std::string l = q + S(s) + "." + S(m) + "." + S(t); int fr = 0; for (int r : rg) if (r != s && r != m && r != t) fr = r;
        at("st." + l, [=](Ctx&) { return Prog{mk(L_ATOMIC_ST, op, REG(s), REG(m), REG(t))}; });
        if (n % 2 || THOROUGH) at("stf." + l, [=](Ctx&) { return Prog{mk(L_ATOMIC_ST, st, REG(s), REG(m), REG(t)), lFlags(K.c_MOV, REG(fr), n & 2 ? K.c_ATOMIC_STORED : K.c_ATOMIC_NOT_STORED)}; });
        else at("stj." + l, [=](Ctx&) { return Prog{mk(L_ATOMIC_ST, st, REG(s), REG(m), REG(t)), lJump(n & 2 ? K.c_ATOMIC_STORED : K.c_ATOMIC_NOT_STORED, 0), lOp1(K.c_MOV, REG(fr), IMM((i64)7)), lLabel(0)}; });
        if (n % 3 == 0 || THOROUGH) at("rmw." + l, [=](Ctx&) { return Prog{mk(L_ATOMIC_LD, op, REG(t), REG(m)), mk(L_ATOMIC_ST, st, REG(s), REG(m), REG(t)), lFlags(K.c_MOV, REG(fr), K.c_ATOMIC_STORED)}; });
        if (n % 11 == 0 && s != m) at("rmws." + l, [=](Ctx&) { return Prog{mk(L_ATOMIC_LD, op, REG(t), REG(m)), lOp1(mv, REG(s), REG(t)), mk(L_ATOMIC_ST, st, REG(s), REG(m), REG(t)), lSel(K.c_ATOMIC_STORED, f32, REG(s), REG(s), REG(t))}; }); } } }
static Reg_ rg2("atomic", atomTasks);
