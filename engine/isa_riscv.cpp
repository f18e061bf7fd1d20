#include "isa.h"
struct RiscV : Machine {
  using Machine::Machine;
  std::vector<int> calleeSaved() override { return {3, 4, 8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27}; }
  std::vector<int> calleeSavedF() override { return {8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27}; }
  int spReg() override { return 2; }
  void setReturn(u64 a) override { r[1] = V(a, xl); }
  V getF(unsigned i, bool d) override { return d ? f[i] : unbox(f[i]); }
  void setF(unsigned i, bool d, V v) override { fw(i, d, v); }
  std::vector<int> argRegs() override { return {10, 11, 12, 13, 14, 15, 16, 17}; }
  std::vector<int> argRegsF() override { return {10, 11, 12, 13, 14, 15, 16, 17}; }
  int retReg() override { return 10; } int retFReg() override { return 10; } int lrReg() override { return 1; } bool fixedReg(int i) override { return i == 0 || i == 3 || i == 4; }
  V g(unsigned i) { return i ? r[i] : V(0, xl); }
  void s(unsigned i, V v) { if (v.w != xl) throw PathStop{"riscv width", 2}; if (i) r[i] = v; }
  V boxf(V v32) { return vconcat(V(0xffffffff, 32), v32); }
  V unbox(V v) { // NaN-boxing check
    V hi = vext(v, 32, 32); V ok = veq(hi, V(0xffffffff, 32)); return vite(ok, vext(v, 0, 32), V(0x7fc00000, 32)); }
  // compressed instructions are rewritten to the 32 bit instruction they stand for (immediate bits may be symbolic)
  static V cat(std::initializer_list<V> l) { V r; for (auto& v : l) r = r.w ? vconcat(r, v) : v; return r; }
  V nz(V v, const char* w) { if (E.branch(veq(v, V(0, v.w)))) undef(std::string("reserved ") + w); return v; }
  V expand(V c) {
    auto x = [&](int hi, int lo) { return vext(c, lo, hi - lo + 1); }; auto k = [](u64 v, unsigned w) { return V(v, w); };
    auto I = [&](V imm, V rs1, int f3, V rd, int op) { return cat({vsxt(imm, 12), rs1, k(f3, 3), rd, k(op, 7)}); };
    auto Sx = [&](V imm, V rs2, V rs1, int f3, int op) { imm = vsxt(imm, 12); return cat({vext(imm, 5, 7), rs2, rs1, k(f3, 3), vext(imm, 0, 5), k(op, 7)}); };
    auto Rr = [&](int f7, V rs2, V rs1, int f3, V rd, int op) { return cat({k(f7, 7), rs2, rs1, k(f3, 3), rd, k(op, 7)}); };
    auto J = [&](V off, V rd) { V o = vsxt(off, 21); return cat({vext(o, 20, 1), vext(o, 1, 10), vext(o, 11, 1), vext(o, 12, 8), rd, k(0x6f, 7)}); };
    auto Br = [&](V off, V rs1, int f3) { V o = vsxt(off, 13); return cat({vext(o, 12, 1), vext(o, 5, 6), k(0, 5), rs1, k(f3, 3), vext(o, 1, 4), vext(o, 11, 1), k(0x63, 7)}); };
    V rd = x(11, 7), rs2 = x(6, 2), rdp = cat({k(1, 2), x(4, 2)}), rs1p = cat({k(1, 2), x(9, 7)}), z = k(0, 5), sp = k(2, 5), imm6 = cat({x(12, 12), x(6, 2)});
    unsigned q = cb(c, 0, 2), f3 = cb(c, 13, 3); bool r64 = xl == 64;
    if (q == 0) { V uw = vzext(cat({x(5, 5), x(12, 10), x(6, 6), k(0, 2)}), 12), ud = vzext(cat({x(6, 5), x(12, 10), k(0, 3)}), 12);
      switch (f3) { case 0: return I(vzext(nz(cat({x(10, 7), x(12, 11), x(5, 5), x(6, 6), k(0, 2)}), "c.addi4spn"), 12), sp, 0, rdp, 0x13); case 1: return I(ud, rs1p, 3, rdp, 7); case 2: return I(uw, rs1p, 2, rdp, 3); case 3: return r64 ? I(ud, rs1p, 3, rdp, 3) : I(uw, rs1p, 2, rdp, 7);
      case 5: return Sx(ud, rdp, rs1p, 3, 0x27); case 6: return Sx(uw, rdp, rs1p, 2, 0x23); case 7: return r64 ? Sx(ud, rdp, rs1p, 3, 0x23) : Sx(uw, rdp, rs1p, 2, 0x27); } undef("c.q0"); }
    if (q == 1) { V joff = cat({x(12, 12), x(8, 8), x(10, 9), x(6, 6), x(7, 7), x(2, 2), x(11, 11), x(5, 3), k(0, 1)}), boff = cat({x(12, 12), x(6, 5), x(2, 2), x(11, 10), x(4, 3), k(0, 1)});
      switch (f3) { case 0: return I(imm6, rd, 0, rd, 0x13); case 1: return r64 ? I(imm6, nz(rd, "c.addiw"), 0, rd, 0x1b) : J(joff, k(1, 5)); case 2: return I(imm6, z, 0, rd, 0x13);
      case 3: if (cb(c, 7, 5) == 2) return I(nz(cat({x(12, 12), x(4, 3), x(5, 5), x(2, 2), x(6, 6), k(0, 4)}), "c.addi16sp"), sp, 0, sp, 0x13); return cat({vsxt(nz(imm6, "c.lui"), 20), rd, k(0x37, 7)});
      case 4: { unsigned f2 = cb(c, 10, 2); V sh = cat({k(f2 == 1 ? 0x10 : 0, 6), imm6}); if (f2 < 2) { if (!r64 && cb(c, 12, 1)) undef("c.shift"); return cat({sh, rs1p, k(5, 3), rs1p, k(0x13, 7)}); } if (f2 == 2) return I(imm6, rs1p, 7, rs1p, 0x13);
        unsigned f = cb(c, 12, 1) * 4 + cb(c, 5, 2); static const int F7[6] = {0x20, 0, 0, 0, 0x20, 0}, F3[6] = {0, 4, 6, 7, 0, 0}; if (f > 5 || (f > 3 && !r64)) undef("c.arith"); return Rr(F7[f], rdp, rs1p, F3[f], rs1p, f > 3 ? 0x3b : 0x33); }
      case 5: return J(joff, z); case 6: return Br(boff, rs1p, 0); default: return Br(boff, rs1p, 1); } }
    { V lw = vzext(cat({x(3, 2), x(12, 12), x(6, 4), k(0, 2)}), 12), ld = vzext(cat({x(4, 2), x(12, 12), x(6, 5), k(0, 3)}), 12), sw = vzext(cat({x(8, 7), x(12, 9), k(0, 2)}), 12), sd = vzext(cat({x(9, 7), x(12, 10), k(0, 3)}), 12);
      switch (f3) { case 0: if (!r64 && cb(c, 12, 1)) undef("c.slli"); return cat({k(0, 6), imm6, rd, k(1, 3), rd, k(0x13, 7)}); case 1: return I(ld, sp, 3, rd, 7); case 2: return I(lw, sp, 2, nz(rd, "c.lwsp"), 3); case 3: return r64 ? I(ld, sp, 3, nz(rd, "c.ldsp"), 3) : I(lw, sp, 2, rd, 7);
      case 4: if (!cb(c, 12, 1)) { if (!cb(c, 2, 5)) return I(k(0, 12), nz(rd, "c.jr"), 0, z, 0x67); return Rr(0, rs2, z, 0, rd, 0x33); } if (!cb(c, 2, 5)) { if (!cb(c, 7, 5)) undef("ebreak"); return I(k(0, 12), rd, 0, k(1, 5), 0x67); } return Rr(0, rs2, rd, 0, rd, 0x33);
      case 5: return Sx(sd, rs2, sp, 3, 0x27); case 6: return Sx(sw, rs2, sp, 2, 0x23); default: return r64 ? Sx(sd, rs2, sp, 3, 0x23) : Sx(sw, rs2, sp, 2, 0x27); } } }
  void bm() { if (!E.feat.count("riscv.b")) undef("zba/zbb instruction"); }
  void step() override {
    V in = fetch(pc, 2); u64 nx; if (cb(in, 0, 2) == 3) { in = fetch(pc, 4); nx = pc + 4; } else { if (!E.feat.count("riscv.c")) undef("compressed instruction"); in = expand(in); nx = pc + 2; } u64 op = cb(in, 0, 7);
    auto rd = [&] { return (unsigned)cb(in, 7, 5); }; auto rs1 = [&] { return (unsigned)cb(in, 15, 5); }; auto rs2 = [&] { return (unsigned)cb(in, 20, 5); };
    V immI = vsext(vext(in, 20, 12), xl); V immS = vsext(vconcat(vext(in, 25, 7), vext(in, 7, 5)), xl);
    switch (op) {
    case 0x37: { V v = vconcat(vext(in, 12, 20), V(0, 12)); s(rd(), xl == 64 ? vsext(v, 64) : v); break; }
    case 0x17: { V v = vconcat(vext(in, 12, 20), V(0, 12)); s(rd(), vadd(V(pc, xl), vsxt(v, xl))); break; }
    case 0x6f: { V off = vconcat(vconcat(vext(in, 31, 1), vext(in, 12, 8)), vconcat(vext(in, 20, 1), vconcat(vext(in, 21, 10), V(0, 1)))); s(rd(), V(nx, xl)); jump(vadd(V(pc, xl), vsext(off, xl))); return; }
    case 0x67: { if (cb(in, 12, 3)) undef("jalr"); V t = vadd(g(rs1()), immI); t = vand(t, V(~1ULL, xl)); s(rd(), V(nx, xl)); jump(t); return; }
    case 0x63: { V off = vconcat(vconcat(vext(in, 31, 1), vext(in, 7, 1)), vconcat(vext(in, 25, 6), vconcat(vext(in, 8, 4), V(0, 1)))); V a = g(rs1()), b = g(rs2()), c;
      switch (cb(in, 12, 3)) { case 0: c = veq(a, b); break; case 1: c = vne(a, b); break; case 4: c = vslt(a, b); break; case 5: c = vsle(b, a); break; case 6: c = vult(a, b); break; case 7: c = vule(b, a); break; default: undef("branch"); }
      if (E.branch(c)) { jump(vadd(V(pc, xl), vsext(off, xl))); return; } break; }
    case 0x03: { V a = vadd(g(rs1()), immI); unsigned f3 = cb(in, 12, 3); unsigned n = 1 << (f3 & 3); if (n * 8 > xl || f3 == 7 || (f3 == 6 && xl == 32)) undef("load"); V v = load(a, n); s(rd(), (f3 & 4) ? vzx(v, xl) : vsxt(v, xl)); break; }
    case 0x23: { V a = vadd(g(rs1()), immS); unsigned f3 = cb(in, 12, 3); unsigned n = 1 << f3; if (f3 > 3 || n * 8 > xl) undef("store"); store(a, vtrunc(g(rs2()), n * 8), n); break; }
    case 0x07: { unsigned f3 = cb(in, 12, 3); V a = vadd(g(rs1()), immI); if (f3 == 2) f[rd()] = boxf(load(a, 4)); else if (f3 == 3) f[rd()] = ld64(a); else undef("fload"); break; }
    case 0x27: { unsigned f3 = cb(in, 12, 3); V a = vadd(g(rs1()), immS); if (f3 == 2) store(a, vtrunc(f[rs2()], 32), 4); else if (f3 == 3) store(a, f[rs2()], 8); else undef("fstore"); break; }
    case 0x13: { V a = g(rs1()); V x; unsigned sb = xl == 64 ? 6 : 5;
      switch (cb(in, 12, 3)) {
      case 0: x = vadd(a, immI); break; case 2: x = vzext(vslt(a, immI), xl); break; case 3: x = vzext(vult(a, immI), xl); break;
      case 4: x = vxor(a, immI); break; case 6: x = vor(a, immI); break; case 7: x = vand(a, immI); break;
      case 1: { unsigned top = cb(in, 20 + sb, 12 - sb); V sh = vzext(vext(in, 20, sb), xl); unsigned t6 = xl == 64 ? top << 1 : top; (void)t6;
        if (top == 0) x = vshl(a, sh); else { unsigned full = cb(in, 20, 12); bm(); switch (full) { case 0x600: x = vclz(a); break; case 0x601: x = vctz(a); break; case 0x604: x = vsxt(vtrunc(a, 8), xl); break; case 0x605: x = vsxt(vtrunc(a, 16), xl); break; default: undef("slli"); } } break; }
      case 5: { unsigned top = cb(in, 20 + sb, 12 - sb); V sh = vzext(vext(in, 20, sb), xl); unsigned k = xl == 64 ? top << 1 : top; // funct7
        if (k == 0) x = vlshr(a, sh); else if (k == 0x20) x = vashr(a, sh); else if (k == 0x30) bm(), x = vrotl(a, vsub(V(0, xl), sh)); else { unsigned full = cb(in, 20, 12); bm(); if (full == (xl == 64 ? 0x6b8u : 0x698u)) x = vbswap(a); else undef("srli"); } break; } }
      s(rd(), x); break; }
    case 0x1b: { if (xl == 32) undef("rv32"); V a = vtrunc(g(rs1()), 32); V x; V sh = vzext(vext(in, 20, 5), 32);
      switch (cb(in, 12, 3)) { case 0: x = vadd(a, vtrunc(immI, 32)); break;
      case 1: { unsigned f7 = cb(in, 25, 7); if (f7 == 0) x = vshl(a, sh); else if (f7 == 0x30) { unsigned full = cb(in, 20, 12); bm(); if (full == 0x600) x = vclz(a); else if (full == 0x601) x = vctz(a); else undef("opimm32"); } else if ((f7 & ~1u) == 0x04) { bm(); s(rd(), vshl(vzext(a, 64), vzext(vext(in, 20, 6), 64))); pc = nx; return; } else undef("slliw"); break; }
      case 5: { unsigned f7 = cb(in, 25, 7); if (f7 == 0) x = vlshr(a, sh); else if (f7 == 0x20) x = vashr(a, sh); else if (f7 == 0x30) bm(), x = vrotl(a, vsub(V(0, 32), sh)); else undef("srliw"); break; }
      default: undef("opimm32"); }
      s(rd(), vsext(x, 64)); break; }
    case 0x33: { V a = g(rs1()), b = g(rs2()), x; unsigned f3 = cb(in, 12, 3), f7 = cb(in, 25, 7); V sh = vand(b, V(xl - 1, xl));
      if (f7 == 1) { switch (f3) { case 0: x = vmul(a, b); break; case 1: x = vmulhs(a, b); break; case 3: x = vmulhu(a, b); break; case 4: x = vsdiv(a, b); break; case 5: x = vudiv(a, b); break; case 6: x = vsrem(a, b); break; case 7: x = vurem(a, b); break; default: undef("mulhsu"); } }
      else if (f7 == 0) switch (f3) { case 0: x = vadd(a, b); break; case 1: x = vshl(a, sh); break; case 2: x = vzext(vslt(a, b), xl); break; case 3: x = vzext(vult(a, b), xl); break; case 4: x = vxor(a, b); break; case 5: x = vlshr(a, sh); break; case 6: x = vor(a, b); break; case 7: x = vand(a, b); break; }
      else if (f7 == 0x20) switch (f3) { case 0: x = vsub(a, b); break; case 5: x = vashr(a, sh); break; case 4: bm(); x = vnot(vxor(a, b)); break; case 6: bm(); x = vor(a, vnot(b)); break; case 7: bm(); x = vand(a, vnot(b)); break; default: undef("op"); }
      else if (bm(), f7 == 0x10) switch (f3) { case 2: x = vadd(vshl(a, V(1, xl)), b); break; case 4: x = vadd(vshl(a, V(2, xl)), b); break; case 6: x = vadd(vshl(a, V(3, xl)), b); break; default: undef("zba"); }
      else if (f7 == 0x30) switch (f3) { case 1: x = vrotl(a, sh); break; case 5: x = vrotl(a, vsub(V(0, xl), sh)); break; default: undef("rot"); }
      else if (f7 == 0x05) switch (f3) { case 4: x = vite(vslt(a, b), a, b); break; case 5: x = vite(vult(a, b), a, b); break; case 6: x = vite(vslt(a, b), b, a); break; case 7: x = vite(vult(a, b), b, a); break; default: undef("minmax"); }
      else if (f7 == 0x04 && f3 == 4 && xl == 32) x = vzx(vtrunc(a, 16), xl);
      else undef("op f7");
      s(rd(), x); break; }
    case 0x3b: { if (xl == 32) undef("rv32"); V a = vtrunc(g(rs1()), 32), b = vtrunc(g(rs2()), 32), x; unsigned f3 = cb(in, 12, 3), f7 = cb(in, 25, 7); V sh = vand(b, V(31, 32));
      if (f7 == 1) switch (f3) { case 0: x = vmul(a, b); break; case 4: x = vsdiv(a, b); break; case 5: x = vudiv(a, b); break; case 6: x = vsrem(a, b); break; case 7: x = vurem(a, b); break; default: undef("mulw"); }
      else if (f7 == 0) switch (f3) { case 0: x = vadd(a, b); break; case 1: x = vshl(a, sh); break; case 5: x = vlshr(a, sh); break; default: undef("opw"); }
      else if (f7 == 0x20) switch (f3) { case 0: x = vsub(a, b); break; case 5: x = vashr(a, sh); break; default: undef("opw"); }
      else if (f7 == 0x30) switch (bm(), f3) { case 1: x = vrotl(a, sh); break; case 5: x = vrotl(a, vsub(V(0, 32), sh)); break; default: undef("opw"); }
      else if (bm(), f7 == 0x04) { V au = vzext(a, 64), B = g(rs2()); if (f3 == 0) { s(rd(), vadd(au, B)); pc = nx; return; } if (f3 == 4) { s(rd(), vzx(vtrunc(g(rs1()), 16), 64)); pc = nx; return; } undef("zba.uw"); }
      else if (f7 == 0x10) { V au = vzext(a, 64), B = g(rs2()); if (f3 == 2 || f3 == 4 || f3 == 6) { s(rd(), vadd(vshl(au, V(f3 / 2, 64)), B)); pc = nx; return; } undef("shNadd.uw"); }
      else undef("opw f7");
      s(rd(), vsext(x, 64)); break; }
    case 0x0f: break; // fence
    case 0x2f: { unsigned f3 = cb(in, 12, 3), f5 = cb(in, 27, 5); unsigned n = 1 << f3; V a = g(rs1()); if (f3 != 2 && f3 != 3) undef("amo size"); needAligned(a, n);
      if (f5 == 2) { V v = load(a, n); resvA = a; resvN = n; s(rd(), vsxt(v, xl)); }
      else if (f5 == 3) { if (!exclusiveOk(a, n)) s(rd(), V(1, xl)); else { store(a, vtrunc(g(rs2()), n * 8), n); s(rd(), V(0, xl)); } }
      else undef("amo"); break; }
    case 0x53: fpu(in, rd(), rs1(), rs2()); break;
    case 0x43: case 0x47: case 0x4b: case 0x4f: undef("fma");
    default: undef("opcode " + std::to_string(op)); }
    pc = nx; }
  V ld64(V a) { V lo = load(a, 8); return lo; }
  V fs(unsigned i, bool d) { return d ? f[i] : unbox(f[i]); }
  void fw(unsigned i, bool d, V v) { f[i] = d ? v : boxf(v); }
  void fpu(V in, unsigned rd, unsigned rs1, unsigned rs2) {
    unsigned f7 = cb(in, 25, 7), f3 = cb(in, 12, 3); bool d = f7 & 1; unsigned w = d ? 64 : 32; 
    switch (f7 & ~1u) {
    case 0x00: fw(rd, d, fpop("fadd", w, fs(rs1, d), fs(rs2, d), V(), true)); break;
    case 0x04: fw(rd, d, fpop("fsub", w, fs(rs1, d), fs(rs2, d))); break;
    case 0x08: fw(rd, d, fpop("fmul", w, fs(rs1, d), fs(rs2, d), V(), true)); break;
    case 0x0c: fw(rd, d, fpop("fdiv", w, fs(rs1, d), fs(rs2, d))); break;
    case 0x10: { V a = fs(rs1, d), b = fs(rs2, d); V sb = vbit(b, w - 1), sa = vbit(a, w - 1); V sg = f3 == 0 ? sb : f3 == 1 ? vnot(sb) : vxor(sa, sb); if (f3 > 2) undef("fsgnj"); fw(rd, d, vconcat(sg, vext(a, 0, w - 1))); break; }
    case 0x20: if (f7 == 0x20 && rs2 == 1) fw(rd, false, fpop("fcvt.s.d", 32, f[rs1])); else if (f7 == 0x21 && rs2 == 0) fw(rd, true, fpop("fcvt.d.s", 64, unbox(f[rs1]))); else undef("fcvt"); break;
    case 0x50: { V a = fs(rs1, d), b = fs(rs2, d), c; if (f3 == 2) c = fcmpEq(a, b); else if (f3 == 1) c = fcmpLt(a, b); else if (f3 == 0) c = vor(fcmpLt(a, b), fcmpEq(a, b)); else undef("fcmp"); s(rd, vzext(c, xl)); break; }
    case 0x60: { V a = fs(rs1, d); if (f3 != 1) undef("rounding mode"); if (rs2 == 0) s(rd, vsxt(fcvtToInt(a, 32, true), xl)); else if (rs2 == 2) s(rd, fcvtToInt(a, 64, true)); else undef("fcvt.int"); break; }
    case 0x68: { V a = g(rs1); switch (rs2) { case 0: fw(rd, d, fcvtFromInt(vtrunc(a, 32), w, true)); break; case 1: fw(rd, d, fcvtFromInt(vtrunc(a, 32), w, false)); break; case 2: fw(rd, d, fcvtFromInt(a, w, true)); break; case 3: fw(rd, d, fcvtFromInt(a, w, false)); break; } break; }
    case 0x70: if (f3 == 0 && rs2 == 0) { if (d && xl == 32) undef("fmv.x.d"); s(rd, d ? f[rs1] : vsxt(vext(f[rs1], 0, 32), xl)); } else undef("fmv.x"); break;
    case 0x78: if (f3 == 0 && rs2 == 0) { if (d && xl == 32) undef("fmv.d.x"); f[rd] = d ? g(rs1) : boxf(vtrunc(g(rs1), 32)); } else undef("fmv"); break;
    default: undef("fpu"); } }
};
Machine* mkRiscV(Engine& e) { return new RiscV(e); }
