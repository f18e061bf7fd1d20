#include "isa.h"
// AArch64 (A64) integer + scalar floating point subset
struct A64 : Machine {
  using Machine::Machine;
  V N{0, 1}, Z{0, 1}, C{0, 1}, Vf{0, 1};
  void init() override { N = var("m.N", 1); Z = var("m.Z", 1); C = var("m.C", 1); Vf = var("m.V", 1); }
  std::vector<int> calleeSaved() override { return {18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29}; }
  std::vector<int> calleeSavedF() override { return {8, 9, 10, 11, 12, 13, 14, 15}; }
  int spReg() override { return 31; } int nGpr() override { return 32; }
  void setReturn(u64 a) override { r[30] = V(a, 64); }
  std::vector<int> argRegs() override { return {0, 1, 2, 3, 4, 5, 6, 7}; } std::vector<int> argRegsF() override { return {0, 1, 2, 3, 4, 5, 6, 7}; }
  int retReg() override { return 0; } int lrReg() override { return 30; } void havocFlags(const std::string& h) override { N = var(h + ".N", 1); Z = var(h + ".Z", 1); C = var(h + ".C", 1); Vf = var(h + ".V", 1); }
  void setF(unsigned i, bool d, V v) override { f[i] = d ? v : vconcat(vext(f[i], 32, 32), v); }
  V X(unsigned i, unsigned w = 64) { return i == 31 ? V(0, w) : vtrunc(r[i], w); }
  V XS(unsigned i, unsigned w = 64) { return vtrunc(r[i], w); }
  void W(unsigned i, V v) { if (i != 31) r[i] = vzx(v, 64); }
  void WS(unsigned i, V v) { r[i] = vzx(v, 64); }
  void FW(unsigned i, V v) { f[i] = vzx(v, 64); fh[i] = V(0, 64); }
  V F(unsigned i, unsigned w) { return vtrunc(f[i], w); }
  V addc(V a, V b, V c, bool setf) { unsigned w = a.w; V s = vadd(vadd(a, b), vzx(c, w)); if (setf) { N = vbit(s, w - 1); Z = veq(s, V(0, w));
      if (c.is(0)) C = vult(s, a); else if (c.is(1)) C = vule(s, a); else C = vor(vult(vadd(a, b), a), vult(s, vadd(a, b)));
      Vf = vbit(vand(vxor(s, a), vxor(s, b)), w - 1); } return s; }
  V subb(V a, V b, bool setf) { unsigned w = a.w; V s = vsub(a, b); if (setf) { N = vbit(s, w - 1); Z = veq(a, b); C = vule(b, a); Vf = vbit(vand(vxor(a, b), vxor(a, s)), w - 1); nzA = a; nzB = b; } return s; }
  V nzA, nzB;
  V cond(unsigned c) { V x; switch (c >> 1) { case 0: x = Z; break; case 1: x = C; break; case 2: x = N; break; case 3: x = Vf; break; case 4: x = vand(C, vnot(Z)); break; case 5: x = veq(N, Vf); break; case 6: x = vand(vnot(Z), veq(N, Vf)); break; default: return V(1, 1); } return (c & 1) ? vnot(x) : x; }
  void logicF(V s) { N = vbit(s, s.w - 1); Z = veq(s, V(0, s.w)); C = V(0, 1); Vf = V(0, 1); }
  V shreg(V v, unsigned ty, V amt) { switch (ty) { case 0: return vshl(v, amt); case 1: return vlshr(v, amt); case 2: return vashr(v, amt); } return vrotl(v, vsub(V(0, v.w), amt)); }
  V extend(V v, unsigned opt, unsigned w) { unsigned b = 8 << (opt & 3); if (b > w) b = w; V t = vtrunc(v, b); return (opt & 4) ? vsxt(t, w) : vzx(t, w); }
  static u64 bitmask(unsigned n, unsigned imms, unsigned immr, unsigned w, bool& ok) { unsigned v = (n << 6) | (~imms & 0x3f); int len = -1; for (int i = 6; i >= 0; i--) if (v >> i & 1) { len = i; break; } ok = len >= 1; if (!ok) return 0; unsigned lv = (1u << len) - 1, S = imms & lv, R = immr & lv, es = 1u << len; if (S == lv) { ok = false; return 0; } u64 e = maskw(S + 1); u64 m = maskw(es); e = R ? ((e >> R) | (e << (es - R))) & m : e; u64 res = 0; for (unsigned i = 0; i < 64; i += es) res |= e << i; return res & maskw(w); }
  void step() override {
    V in = fetch(pc, 4); u64 nx = pc + 4;
    auto B = [&](unsigned lo, unsigned w) { return (unsigned)cb(in, lo, w); };
    unsigned op0 = B(25, 4);
    if ((op0 & 0xe) == 8) dpImm(in);
    else if ((op0 & 0xe) == 0xa) { if (branchSys(in)) return; }
    else if ((op0 & 5) == 4) ldst(in);
    else if ((op0 & 7) == 5) dpReg(in);
    else if ((op0 & 7) == 7) fpsimd(in);
    else undef("op0");
    pc = nx; }
  void dpImm(V in) {
    auto B = [&](unsigned lo, unsigned w) { return (unsigned)cb(in, lo, w); };
    unsigned sf = B(31, 1), w = sf ? 64 : 32, d = B(0, 5), k = B(23, 3), n = k < 2 || k == 5 ? 0 : B(5, 5);
    switch (k) {
    case 0: case 1: { V imm = vsxt(vconcat(vext(in, 5, 19), vext(in, 29, 2)), 64); if (sf) W(d, vadd(V(pc & ~0xfffULL, 64), vshl(imm, V(12, 64)))); else W(d, vadd(V(pc, 64), imm)); break; }
    case 2: { V imm = vzx(vext(in, 10, 12), w); if (B(22, 1)) imm = vshl(imm, V(12, w)); bool sub = B(30, 1), s = B(29, 1); V a = XS(n, w); V v = sub ? subb(a, imm, s) : addc(a, imm, V(0, 1), s); if (s) W(d, v); else WS(d, v); break; }
    case 4: { bool ok; if (!sf && B(22, 1)) undef("bitmask"); u64 m = bitmask(B(22, 1), B(10, 6), B(16, 6), w, ok); if (!ok) undef("bitmask"); V a = X(n, w), v; unsigned opc = B(29, 2); v = opc == 1 ? vor(a, V(m, w)) : opc == 2 ? vxor(a, V(m, w)) : vand(a, V(m, w)); if (opc == 3) { logicF(v); W(d, v); } else WS(d, v); break; }
    case 5: { unsigned hw = B(21, 2), opc = B(29, 2); if (!sf && hw > 1) undef("movw"); V imm = vzx(vext(in, 5, 16), w); V sh = vshl(imm, V(hw * 16, w)); if (opc == 0) W(d, vnot(sh)); else if (opc == 2) W(d, sh); else if (opc == 3) { V o = X(d, w); V r2; V im = vext(in, 5, 16); unsigned lo = hw * 16; V res = im; if (lo) res = vconcat(res, vext(o, 0, lo)); if (lo + 16 < w) res = vconcat(vext(o, lo + 16, w - lo - 16), res); W(d, res); } else undef("movw"); break; }
    case 6: { unsigned opc = B(29, 2); V immrV = vext(in, 16, 6), immsV = vext(in, 10, 6); if (B(22, 1) != sf) undef("bfm N");
      unsigned R = cc(immrV), S = cc(immsV); if (!sf && (R > 31 || S > 31)) undef("bfm"); V a = X(n, w), v;
      if (opc == 0 || opc == 2) { if (S >= R) { v = vext(a, R, S - R + 1); v = opc == 0 ? vsxt(v, w) : vzx(v, w); } else { v = vext(a, 0, S + 1); v = vshl(opc == 0 ? vsxt(v, w) : vzx(v, w), V(w - R, w)); } W(d, v); }
      else if (opc == 1) { V o = X(d, w); V m, val; if (S >= R) { m = V(maskw(S - R + 1), w); val = vand(vlshr(a, V(R, w)), m); } else { m = V(maskw(S + 1) << (w - R), w); val = vand(vshl(a, V(w - R, w)), m); } W(d, vor(vand(o, vnot(m)), val)); }
      else undef("bfm opc"); break; }
    case 7: { unsigned m = B(16, 5), l = cc(vext(in, 10, 6)); if (B(22, 1) != sf || B(29, 2) || (!sf && l > 31)) undef("extr"); V a = X(n, w), b = X(m, w); W(d, l ? vor(vlshr(b, V(l, w)), vshl(a, V(w - l, w))) : b); break; }
    default: undef("dpimm"); } }
  bool branchSys(V in) {
    auto B = [&](unsigned lo, unsigned w) { return (unsigned)cb(in, lo, w); };
    unsigned t = B(29, 3);
    if ((t & 3) == 0) { V off = vsxt(vconcat(vext(in, 0, 26), V(0, 2)), 64); if (t & 4) r[30] = V(pc + 4, 64); jump(vadd(V(pc, 64), off)); return true; }
    if ((t & 3) == 1) { V c; V off; if (B(25, 1)) { V bit = vconcat(vext(in, 31, 1), vext(in, 19, 5)); unsigned bn = cc(bit); c = vbit(X(B(0, 5)), bn); off = vsxt(vconcat(vext(in, 5, 14), V(0, 2)), 64); } else { unsigned w = B(31, 1) ? 64 : 32; c = vne(X(B(0, 5), w), V(0, w)); off = vsxt(vconcat(vext(in, 5, 19), V(0, 2)), 64); }
      bool tk = E.branch(c); if ((B(24, 1) == 1) == tk) { jump(vadd(V(pc, 64), off)); return true; } return false; }
    if (t == 2) { if (B(24, 1) || B(4, 1)) undef("bcond"); if (E.branch(cond(B(0, 4)))) { jump(vadd(V(pc, 64), vsxt(vconcat(vext(in, 5, 19), V(0, 2)), 64))); return true; } return false; }
    if (t == 6) { unsigned x = cc(in); if (x == 0xd503201f || (x & 0xfffff0ff) == 0xd503309f || (x & 0xfffff0ff) == 0xd50330bf || (x & 0xffffff3f) == 0xd503241f || (x & 0xfffff01f) == 0xd503201f) return false;
      if ((x & 0xfffffc1f) == 0xd61f0000) { jump(X(x >> 5 & 31)); return true; } if ((x & 0xfffffc1f) == 0xd63f0000) { V tg = X(x >> 5 & 31); r[30] = V(pc + 4, 64); jump(tg); return true; } if ((x & 0xfffffc1f) == 0xd65f0000) { jump(X(x >> 5 & 31)); return true; }
      if ((x & 0xffe0001f) == 0xd4200000) throw PathStop{"breakpoint executed", 1}; 
      if ((x & 0xfff00000) == 0xd5300000) { W(x & 31, var("sysreg", 64)); return false; } }
    undef("branch/system"); }
  V addrIdx(V in, unsigned n, unsigned opt, unsigned s, unsigned sz) { V o = X(cb(in, 16, 5)); V e; switch (opt) { case 2: e = vzx(vtrunc(o, 32), 64); break; case 3: case 7: e = o; break; case 6: e = vsxt(vtrunc(o, 32), 64); break; default: undef("ldst option"); } if (s) e = vshl(e, V(sz, 64)); return vadd(XS(n), e); }
  void doLs(unsigned size, bool vreg, unsigned opc, unsigned t, V a) {
    if (vreg) { unsigned sz = size | (opc & 2) << 1; unsigned n = 1 << sz; bool ld = opc & 1; if (sz > 4) undef("fp ldst");
      if (n == 16) { if (ld) { V lo = load(a, 8), hi = load(vadd(a, V(8, 64)), 8); f[t] = lo; fh[t] = hi; } else { store(a, f[t], 8); store(vadd(a, V(8, 64)), fh[t], 8); } return; }
      if (ld) FW(t, load(a, n)); else store(a, F(t, n * 8), n); return; }
    unsigned n = 1 << size; if (opc == 0) { store(a, X(t, n * 8), n); return; } if (opc == 1) { W(t, load(a, n)); return; }
    if (size == 3) { if (opc == 2) return; undef("ldst opc"); } if (opc == 3 && size == 2) undef("ldst opc"); V v = load(a, n); W(t, opc == 2 ? vsxt(v, 64) : vsxt(v, 32)); }
  static V put(V o, unsigned p, V v) { unsigned es = v.w; V r = v; if (p) r = vconcat(r, vext(o, 0, p)); if (p + es < 64) r = vconcat(vext(o, p + es, 64 - p - es), r); return r; }
  void ldst(V in) {
    auto B = [&](unsigned lo, unsigned w) { return (unsigned)cb(in, lo, w); };
    unsigned size = B(30, 2), vr = B(26, 1), t = B(0, 5), n = B(5, 5); unsigned k = B(27, 3);
    if (k == 7) { // register
      unsigned opc = B(22, 2); unsigned sz = vr ? (size | (opc & 2) << 1) : size;
      if (B(24, 1)) { doLs(size, vr, opc, t, vadd(XS(n), vshl(vzx(vext(in, 10, 12), 64), V(sz, 64)))); return; }
      if (B(21, 1)) { if (B(10, 2) == 2) { doLs(size, vr, opc, t, addrIdx(in, n, B(13, 3), B(12, 1), sz)); return; } undef("ldst atomic"); }
      V imm = vsxt(vext(in, 12, 9), 64); unsigned m = B(10, 2); V a = XS(n);
      if (m == 0) { doLs(size, vr, opc, t, vadd(a, imm)); return; } if (m == 2) undef("ldtr");
      if (!vr && t == n && n != 31) undef("ldst writeback with same register"); V na = vadd(a, imm); doLs(size, vr, opc, t, m == 1 ? a : na); WS(n, na); return; }
    if (k == 5) { unsigned m = B(23, 2), ld = B(22, 1), t2 = B(10, 5); unsigned sz; if (vr) { sz = 2 + size; if (size > 2) undef("ldp"); } else { if (size & 1 && size != 1) undef("ldp"); if (size == 1) undef("ldpsw"); sz = size == 2 ? 3 : 2; }
      V imm = vshl(vsxt(vext(in, 15, 7), 64), V(sz, 64)); V a = XS(n); V na = vadd(a, imm); V ad = m == 1 ? a : na; unsigned by = 1 << sz; V a2 = vadd(ad, V(by, 64));
      if (m == 0) undef("ldnp"); if (ld && t == t2) undef("ldp same"); if (!vr && m != 2 && (t == n || t2 == n) && n != 31) undef("ldp writeback");
      if (vr) { if (ld) { doLs(sz & 3, true, sz > 3 ? 3 : 1, t, ad); doLs(sz & 3, true, sz > 3 ? 3 : 1, t2, a2); } else { doLs(sz & 3, true, sz > 3 ? 2 : 0, t, ad); doLs(sz & 3, true, sz > 3 ? 2 : 0, t2, a2); } }
      else if (ld) { V v1 = load(ad, by), v2 = load(a2, by); W(t, v1); W(t2, v2); } else { V v1 = X(t, by * 8), v2 = X(t2, by * 8); store(ad, v1, by); store(a2, v2, by); }
      if (m & 1) WS(n, na); return; }
    if (k == 1 && !vr) { unsigned o2 = B(23, 1), L = B(22, 1), o1 = B(21, 1), rs = B(16, 5), o0 = B(15, 1), t2 = B(10, 5); unsigned by = 1 << size; V a = XS(n); (void)o0;
      if (B(24, 1)) undef("ldst excl");
      if (!o2 && !o1) { if (by > 1) needAligned(a, by); if (t2 != 31) undef("excl rt2"); if (L) { W(t, load(a, by)); resvA = a; resvN = by; } else { if (rs == t || rs == n) undef("stxr registers"); if (!exclusiveOk(a, by)) W(rs, V(1, 32)); else { store(a, X(t, by * 8), by); W(rs, V(0, 32)); } } return; }
      if (o2 && o1) { if (by > 1) needAligned(a, by); V cur = load(a, by); if (t2 != 31) undef("cas"); V exp = X(rs, by * 8); if (E.branch(veq(cur, exp))) store(a, X(t, by * 8), by); W(rs, cur); return; } }
    if (k == 1 && vr) { unsigned x = cc(in), Q = x >> 30 & 1, L = x >> 22 & 1; V a = XS(n); auto half = [&](unsigned p) -> V& { return p ? fh[t] : f[t]; };
      if ((x & 0xbfbff000) == 0x0c007000) { for (unsigned h = 0; h <= Q; h++) { V ad = h ? vadd(a, V(8, 64)) : a; if (L) half(h) = load(ad, 8); else store(ad, half(h), 8); } if (L && !Q) fh[t] = V(0, 64); return; }
      if ((x & 0xbfbf0000) == 0x0d000000) { unsigned opc = x >> 13 & 7, S = x >> 12 & 1, sz = x >> 10 & 3; 
        if (opc == 6 && L && !S) { unsigned es = 8 << sz; V e = load(a, es / 8), r2 = e; for (unsigned k2 = 1; k2 < 64 / es; k2++) r2 = vconcat(r2, e); f[t] = r2; fh[t] = Q ? r2 : V(0, 64); return; }
        unsigned es, ix; if (opc == 0) es = 8, ix = Q << 3 | S << 2 | sz; else if (opc == 2 && !(sz & 1)) es = 16, ix = Q << 2 | S << 1 | sz >> 1; else if (opc == 4 && sz == 0) es = 32, ix = Q << 1 | S; else if (opc == 4 && sz == 1 && !S) es = 64, ix = Q; else undef("ld/st structure");
        unsigned p = ix * es; if (!L) { store(a, vext(half(p >= 64), p & 63, es), es / 8); return; } V& o = half(p >= 64); o = put(o, p & 63, load(a, es / 8)); return; }
      undef("ld/st structure"); }
    if (k == 3 && !B(24, 1)) { V a = vadd(V(pc, 64), vsxt(vconcat(vext(in, 5, 19), V(0, 2)), 64)); if (vr) undef("ldr lit fp"); if (size == 0) W(t, load(a, 4)); else if (size == 1) W(t, load(a, 8)); else if (size == 2) W(t, vsxt(load(a, 4), 64)); return; }
    undef("load/store"); }
  void dpReg(V in) {
    auto B = [&](unsigned lo, unsigned w) { return (unsigned)cb(in, lo, w); };
    unsigned sf = B(31, 1), w = sf ? 64 : 32, d = B(0, 5), n = B(5, 5), m = B(16, 5);
    unsigned op1 = B(28, 1), op2 = B(21, 4);
    if (!op1 && !(op2 & 8)) { V amt = vext(in, 10, 6); if (!sf && cc(vbit(amt, 5))) undef("shift amount"); V b = shreg(X(m, w), B(22, 2), vzx(amt, w)); if (B(21, 1)) b = vnot(b); V a = X(n, w), v; unsigned opc = B(29, 2); v = opc == 1 ? vor(a, b) : opc == 2 ? vxor(a, b) : vand(a, b); if (opc == 3) logicF(v); W(d, v); return; }
    if (!op1 && (op2 & 9) == 8) { V amt = vext(in, 10, 6); if (!sf && cc(vbit(amt, 5))) undef("shift amount"); if (B(22, 2) == 3) undef("add ror"); V b = shreg(X(m, w), B(22, 2), vzx(amt, w)); bool sub = B(30, 1), s = B(29, 1); V a = X(n, w); W(d, sub ? subb(a, b, s) : addc(a, b, V(0, 1), s)); return; }
    if (!op1 && (op2 & 9) == 9) { if (B(22, 2)) undef("addext"); unsigned sh = B(10, 3); if (sh > 4) undef("addext"); V b = vshl(extend(X(m), B(13, 3), w), V(sh, w)); bool sub = B(30, 1), s = B(29, 1); V a = XS(n, w); V v = sub ? subb(a, b, s) : addc(a, b, V(0, 1), s); if (s) W(d, v); else WS(d, v); return; }
    if (op1 && op2 == 0) { if (B(10, 6)) undef("adc"); bool sub = B(30, 1), s = B(29, 1); V a = X(n, w), b = X(m, w); W(d, addc(a, sub ? vnot(b) : b, C, s)); return; }
    if (op1 && op2 == 2) { V b = B(11, 1) ? V(m, w) : X(m, w); if (B(10, 1) || B(4, 1) || !B(29, 1)) undef("ccmp"); V c = cond(B(12, 4)); unsigned fl = B(0, 4); V a = X(n, w); V n0, z0, c0, v0; if (B(30, 1)) subb(a, b, true); else addc(a, b, V(0, 1), true); N = vite(c, N, V(fl >> 3 & 1, 1)); Z = vite(c, Z, V(fl >> 2 & 1, 1)); C = vite(c, C, V(fl >> 1 & 1, 1)); Vf = vite(c, Vf, V(fl & 1, 1)); return; }
    if (op1 && op2 == 4) { V c = cond(B(12, 4)); V a = X(n, w), b = X(m, w); if (B(29, 1) || B(11, 1)) undef("csel"); if (B(30, 1)) b = vnot(b); if (B(10, 1)) b = vadd(b, V(1, w)); W(d, vite(c, a, b)); return; }
    if (op1 && op2 == 6) { if (B(29, 1)) undef("dp2"); if (B(30, 1)) { if (m) undef("dp1"); V a = X(n, w), v; switch (B(10, 6)) { case 0: v = vbitrev(a); break; case 1: { V e; bool f1 = true; for (int i = w / 16 - 1; i >= 0; i--) { V h = vbswap(vext(a, i * 16, 16)); e = f1 ? h : vconcat(e, h); f1 = false; } v = e; break; } case 2: { if (!sf) v = vbswap(a); else v = vconcat(vbswap(vext(a, 32, 32)), vbswap(vext(a, 0, 32))); break; } case 3: if (!sf) undef("rev"); v = vbswap(a); break; case 4: v = vclz(a); break; default: undef("dp1"); } W(d, v); return; }
      V a = X(n, w), b = X(m, w), v; V am = vand(b, V(w - 1, w)); switch (B(10, 6)) { case 2: v = ifz(b, V(0, w), vudiv(a, b)); break; case 3: v = ifz(b, V(0, w), vsdiv(a, b)); break; case 8: v = vshl(a, am); break; case 9: v = vlshr(a, am); break; case 10: v = vashr(a, am); break; case 11: v = vrotl(a, vsub(V(0, w), am)); break; default: undef("dp2"); } W(d, v); return; }
    if (op1 && (op2 & 8)) { unsigned a = B(10, 5), o31 = B(21, 3), o0 = B(15, 1); V ra = X(a, w); if (B(29, 2)) undef("dp3"); if (o31 == 0) { V p = vmul(X(n, w), X(m, w)); W(d, o0 ? vsub(ra, p) : vadd(ra, p)); return; } if (!sf) undef("dp3"); if (o31 == 1 || o31 == 5) { V x = X(n, 32), y = X(m, 32); V p = o31 == 1 ? vmul(vsxt(x, 64), vsxt(y, 64)) : vmul(vzx(x, 64), vzx(y, 64)); W(d, o0 ? vsub(ra, p) : vadd(ra, p)); return; } if (o31 == 2 && !o0) { W(d, vmulhs(X(n), X(m))); return; } if (o31 == 6 && !o0) { W(d, vmulhu(X(n), X(m))); return; } undef("dp3"); }
    undef("dpreg"); }
  void fcmp(V a, V b) { V un = vor(fIsNaN(a), fIsNaN(b)), eq = fcmpEq(a, b), lt = fcmpLt(a, b); N = lt; Z = eq; C = vnot(lt); Vf = un; }
  void fpsimd(V in) {
    auto B = [&](unsigned lo, unsigned w) { return (unsigned)cb(in, lo, w); };
    unsigned x = cc(vext(in, 21, 11));
    if (!in.conc() && (x & 0x4ff) == 0x078 && !B(19, 2) && (B(10, 2) == 1)) { // MOVI/MVNI with a symbolic byte
      unsigned q = x >> 9 & 1, op = x >> 8 & 1, cm = B(12, 4), d = B(0, 5); V i8 = vconcat(vext(in, 16, 3), vext(in, 5, 5)), e32;
      if (cm != 15 && !(cm == 14 && op) && !((cm & 9) == 1) && !((cm & 0xd) == 9)) {
        if ((cm & 14) == 12) e32 = cm & 1 ? vconcat(vzx(i8, 16), V(0xffff, 16)) : vconcat(vzx(i8, 24), V(0xff, 8)); else if ((cm & 9) == 0) e32 = vshl(vzx(i8, 32), V((cm >> 1 & 3) * 8, 32)); else if ((cm & 0xd) == 8) { V h = vshl(vzx(i8, 16), V((cm >> 1 & 1) * 8, 16)); e32 = vconcat(h, h); } else { V h = vconcat(i8, i8); e32 = vconcat(h, h); }
        if (op) e32 = vnot(e32); V v = vconcat(e32, e32); f[d] = v; fh[d] = q ? v : V(0, 64); return; } }
    unsigned d = B(0, 5), n = B(5, 5), m = B(16, 5); unsigned ty = B(22, 2);
    if ((x & 0x3f9) == 0x0f1) { // scalar fp: sf 0 0 11110 type 1
      unsigned sf = x >> 10; unsigned fw = ty == 1 ? 64 : ty == 0 ? 32 : 0; 
      unsigned b10 = B(10, 6);
      if (b10 == 0) { // int conversion
        unsigned rm = B(19, 2), op = B(16, 3); unsigned iw = sf ? 64 : 32; if (!fw) undef("fp type");
        if (rm == 3 && op <= 1) { W(d, fcvtToInt(F(n, fw), iw, op == 0)); return; } if (rm == 0 && (op == 2 || op == 3)) { FW(d, fcvtFromInt(X(n, iw), fw, op == 2)); return; }
        if (rm == 0 && op == 6) { if (fw != iw) undef("fmov"); W(d, F(n, fw)); return; } if (rm == 0 && op == 7) { if (fw != iw) undef("fmov"); FW(d, X(n, iw)); return; } undef("fp int conv"); }
      if (sf || !fw) { if (!(!sf && ty == 3)) undef("fp"); undef("fp half"); }
      if ((b10 & 0x1f) == 0x10) { unsigned opc = B(15, 6); V a = F(n, fw); switch (opc) { case 0: FW(d, a); return; case 1: FW(d, vand(a, V(maskw(fw - 1), fw))); return; case 2: FW(d, vxor(a, V(1ULL << (fw - 1), fw))); return; case 4: if (fw != 64) undef("fcvt"); FW(d, fpop("fcvt.s.d", 32, a)); return; case 5: if (fw != 32) undef("fcvt"); FW(d, fpop("fcvt.d.s", 64, a)); return; default: undef("fp1"); } }
      if ((b10 & 0xf) == 8) { unsigned o2 = B(0, 5); V a = F(n, fw); V b = (o2 & 8) ? V(0, fw) : F(m, fw); if (o2 & 7) undef("fcmp"); fcmp(a, b); return; }
      if ((b10 & 7) == 4) { unsigned i8 = cc(vext(in, 13, 8)); if (n) undef("fmovi"); u64 v; if (fw == 64) { u64 s = i8 >> 7, b6 = i8 >> 6 & 1; v = s << 63 | (u64)(b6 ? 0 : 1) << 62 | (b6 ? 0xffULL << 54 : 0) | (u64)(i8 & 0x3f) << 48; } else { u64 s = i8 >> 7, b6 = i8 >> 6 & 1; v = s << 31 | (u64)(b6 ? 0 : 1) << 30 | (b6 ? 0x1fULL << 25 : 0) | (u64)(i8 & 0x3f) << 19; } FW(d, V(v, fw)); return; }
      if ((b10 & 3) == 2) { V a = F(n, fw), b = F(m, fw), v; switch (B(12, 4)) { case 0: v = fpop("fmul", fw, a, b, V(), true); break; case 1: v = fpop("fdiv", fw, a, b); break; case 2: v = fpop("fadd", fw, a, b, V(), true); break; case 3: v = fpop("fsub", fw, a, b); break; default: undef("fp2"); } FW(d, v); return; }
      if ((b10 & 3) == 3) { V c = cond(B(12, 4)); FW(d, vite(c, F(n, fw), F(m, fw))); return; }
      undef("fp"); }
    simd(in, d, n, m); }
  void simd(V in, unsigned d, unsigned n, unsigned m) {
    unsigned x = cc(in); (void)m;
    if ((x & 0x9f800400) == 0x0f000400 && (x >> 19 & 15)) { // shift by immediate
      unsigned q = x >> 30 & 1, U = x >> 29 & 1, opc = x >> 11 & 31, immh = x >> 19 & 15, imm = x >> 16 & 127; unsigned es = immh >= 8 ? 64 : immh >= 4 ? 32 : immh >= 2 ? 16 : 8; 
      if ((opc == 0 || opc == 2) && U) { unsigned sh = 2 * es - imm; auto lane = [&](V a, V o) { V res; bool first = true; for (int i = 64 / es - 1; i >= 0; i--) { V l = vext(a, i * es, es); l = sh >= es ? V(0, es) : vlshr(l, V(sh, es)); if (opc == 2) l = vadd(l, vext(o, i * es, es)); res = first ? l : vconcat(res, l); first = false; } return res; }; V lo = lane(f[n], f[d]); V hi = q ? lane(fh[n], fh[d]) : V(0, 64); f[d] = lo; fh[d] = hi; return; }
      if (opc == 0x14 && immh < 8) { unsigned sh = imm - es; V s = q ? fh[n] : f[n]; V h[2]; for (unsigned k2 = 0; k2 < 64 / es; k2++) { V e = vext(s, k2 * es, es); e = vshl(U ? vzx(e, 2 * es) : vsxt(e, 2 * es), V(sh, 2 * es)); V& o = h[k2 * 2 * es / 64]; o = o.w ? vconcat(e, o) : e; } f[d] = h[0]; fh[d] = h[1]; return; } }
    if ((x & 0xfffffc00) == 0x0e617800) { V s = f[n]; f[d] = fpop("fcvt.d.s", 64, vext(s, 0, 32)); fh[d] = fpop("fcvt.d.s", 64, vext(s, 32, 32)); return; }
    if ((x & 0xbf3ffc00) == 0x0e212800 && (x >> 22 & 3) < 3) { unsigned es = 8 << (x >> 22 & 3); V r; for (unsigned h = 0; h < 2; h++) for (unsigned k2 = 0; k2 < 32 / es; k2++) { V e = vext(h ? fh[n] : f[n], k2 * 2 * es, es); r = r.w ? vconcat(e, r) : e; } if (x >> 30 & 1) fh[d] = r; else { f[d] = r; fh[d] = V(0, 64); } return; }
    if ((x & 0xbfe0fc00) == 0x0e000000) { unsigned q = x >> 30 & 1; V tl = f[n], th = fh[n], r[2]; for (unsigned i = 0; i < (q ? 16 : 8); i++) { V ix = vext(i < 8 ? f[m] : fh[m], (i & 7) * 8, 8), e(0, 8); for (int k2 = 0; k2 < 16; k2++) e = vite(veq(ix, V(k2, 8)), vext(k2 < 8 ? tl : th, (k2 & 7) * 8, 8), e); V& o = r[i / 8]; o = o.w ? vconcat(e, o) : e; } f[d] = r[0]; fh[d] = q ? r[1] : V(0, 64); return; }
    if ((x & 0xffe08400) == 0x6e000400) { unsigned i5 = x >> 16 & 31; unsigned es = i5 & 1 ? 8 : i5 & 2 ? 16 : i5 & 4 ? 32 : i5 & 8 ? 64 : 0; if (!es) undef("ins"); unsigned lg = __builtin_ctz(es / 8), dp = (i5 >> (1 + lg)) * es, sp = (x >> (11 + lg) & (15 >> lg)) * es; V e = vext(sp >= 64 ? fh[n] : f[n], sp & 63, es); V& o = dp >= 64 ? fh[d] : f[d]; o = put(o, dp & 63, e); return; }
    if ((x & 0xbfe0fc00) == 0x0ea01c00 || (x & 0xbfe0fc00) == 0x0e201c00 || (x & 0xbfe0fc00) == 0x2e201c00) { unsigned q = x >> 30 & 1; auto o = [&](V a, V b) { return (x & 0x20000000) ? vxor(a, b) : (x & 0x00800000) ? vor(a, b) : vand(a, b); }; V lo = o(f[n], f[m]), hi = q ? o(fh[n], fh[m]) : V(0, 64); f[d] = lo; fh[d] = hi; return; }
    // MOVI/MVNI
    if ((x & 0x9ff80400) == 0x0f000400) { unsigned q = x >> 30 & 1, op = x >> 29 & 1, cm = x >> 12 & 15; u64 i8 = (x >> 16 & 7) << 5 | (x >> 5 & 31); u64 v = 0; bool ok = true; if ((cm & 14) == 12) { u64 e = cm & 1 ? i8 << 16 | 0xffff : i8 << 8 | 0xff; v = e | e << 32; } else if ((cm & 9) == 0) { u64 e = i8 << ((cm >> 1 & 3) * 8); v = e | e << 32; } else if ((cm & 0xd) == 8) { u64 e = i8 << ((cm >> 1 & 1) * 8); v = e | e << 16 | e << 32 | e << 48; } else if (cm == 14 && !op) { v = i8 * 0x0101010101010101ULL; } else if (cm == 14 && op) { for (int i = 0; i < 8; i++) if (i8 >> i & 1) v |= 0xffULL << (i * 8); op = 0; } else ok = false; if (ok) { if (op) v = ~v; f[d] = V(v, 64); fh[d] = q ? V(v, 64) : V(0, 64); return; } }
    if ((x & 0xffe0fc00) == 0x4e001c00 || (x & 0xbfe0fc00) == 0x0e003c00 || (x & 0xbfe0fc00) == 0x0e002c00 || (x & 0xbfe0fc00) == 0x0e000c00 || (x & 0xbfe0fc00) == 0x0e000400) { unsigned i5 = x >> 16 & 31; unsigned es = i5 & 1 ? 8 : i5 & 2 ? 16 : i5 & 4 ? 32 : i5 & 8 ? 64 : 0; if (!es) undef("simd lane"); unsigned ix = i5 >> (1 + (es == 16) + 2 * (es == 32) + 3 * (es == 64)); unsigned pos = ix * es;
      if ((x & 0xffe0fc00) == 0x4e001c00) { V v = X(n, es); auto put = [&](V o, unsigned p) { V r = v; if (p) r = vconcat(r, vext(o, 0, p)); if (p + es < 64) r = vconcat(vext(o, p + es, 64 - p - es), r); return r; }; if (pos < 64) f[d] = put(f[d], pos); else fh[d] = put(fh[d], pos - 64); return; }
      if ((x & 0xbfe0fc00) == 0x0e002c00) { V v = pos < 64 ? vext(f[n], pos, es) : vext(fh[n], pos - 64, es); unsigned dw = x >> 30 & 1 ? 64 : 32; if (es >= dw) undef("smov"); W(d, vsxt(v, dw)); return; }
      if ((x & 0xbfe0fc00) == 0x0e003c00) { if ((x >> 30 & 1) != (es == 64)) undef("umov"); V v = pos < 64 ? vext(f[n], pos, es) : vext(fh[n], pos - 64, es); W(d, v); return; }
      V e = (x & 0x800) ? X(n, es) : (pos < 64 ? vext(f[n], pos, es) : vext(fh[n], pos - 64, es)); V r2 = e; for (unsigned k = 1; k < 64 / es; k++) r2 = vconcat(r2, e); f[d] = r2; fh[d] = (x >> 30 & 1) ? r2 : V(0, 64); return; }
    undef("simd"); }
};
Machine* mkA64(Engine& e) { return new A64(e); }
