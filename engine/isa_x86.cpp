#include "isa.h"
// x86 (32 and 64 bit): integer, SSE2..SSE4.1/AVX subset, x87 load/store
struct X86 : Machine {
  bool L;
  V CF{0, 1}, ZF{0, 1}, SF{0, 1}, OF{0, 1}, PF{0, 1}; V yh[2][16]; // upper halves of ymm
  std::vector<V> fst; // x87 stack
  X86(Engine& e) : Machine(e) { L = e.pw == 64; xl = e.pw; be = false; }
  void init() override { CF = var("m.CF", 1); ZF = var("m.ZF", 1); SF = var("m.SF", 1); OF = var("m.OF", 1); PF = var("m.PF", 1); for (int i = 0; i < 16; i++) for (int k = 0; k < 2; k++) yh[k][i] = var("m.y" + std::to_string(k) + "." + std::to_string(i), 64); fst.clear(); }
  std::vector<int> calleeSaved() override { return L ? std::vector<int>{3, 5, 12, 13, 14, 15} : std::vector<int>{3, 5, 6, 7}; }
  int spReg() override { return 4; } int nGpr() override { return L ? 16 : 8; } int nFpr() override { return L ? 16 : 8; }
  void setReturn(u64 a) override { r[4] = vsub(r[4], V(xl / 8, xl)); store(r[4], V(a, xl), xl / 8); }
  std::vector<int> argRegs() override { return L ? std::vector<int>{7, 6, 2, 1, 8, 9} : std::vector<int>{}; }
  std::vector<int> argRegsF() override { return L ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{}; }
  int retReg() override { return 0; } u64 popReturn() override { return E.concretize(pop()); } void havocFlags(const std::string& h) override { CF = var(h + ".CF", 1); ZF = var(h + ".ZF", 1); SF = var(h + ".SF", 1); OF = var(h + ".OF", 1); PF = var(h + ".PF", 1); }
  V getRetF(bool d) override { if (L) return getF(0, d); if (fst.size() != 1) throw PathStop{"x87 stack does not hold exactly the result", 1}; V v = fst.back(); if (v.w != (d ? 64u : 32u)) v = fpop(d ? "fcvt.d.s" : "fcvt.s.d", d ? 64 : 32, v); return v; }
  void setRetF(bool d, V v) override { if (L) setF(0, d, v); else fst.push_back(v); }
  u64 abiWritable() override { return L ? 0 : 64; }
  // decoding state
  u64 ip; int seg; bool rep, repne, o16, lockp; unsigned rex; unsigned mod, reg, rm; bool isMem; V ea; unsigned osz; bool vex, vexL; unsigned vvvv;
  V fb() { V b = fetch(ip, 1); ip++; return b; }
  u8 fc() { return (u8)cc(fb()); }
  V fimm(unsigned n) { V v = fetch(ip, n); ip += n; return v; }
  void modrm(unsigned immBytes) {
    u8 m = fc(); mod = m >> 6; reg = (m >> 3 & 7) | (rex & 4) << 1; rm = m & 7; isMem = mod != 3;
    if (!isMem) { rm |= (rex & 1) << 3; return; }
    V a(0, xl);
    bool ripRel = false;
    if (rm == 4) { u8 s = fc(); unsigned sc = s >> 6, ix = (s >> 3 & 7) | (rex & 2) << 2, bs = (s & 7); 
      if (bs == 5 && mod == 0) { a = vsxt(fimm(4), xl); if (ix != 4) a = vadd(a, vshl(r[ix], V(sc, xl))); ea = a; return; }
      a = r[bs | (rex & 1) << 3]; if (ix != 4) a = vadd(a, vshl(r[ix], V(sc, xl))); }
    else if (rm == 5 && mod == 0) { V d = fimm(4); if (L) { ripRel = true; a = vadd(V(ip + immBytes, xl), vsxt(d, xl)); } else a = d; ea = a; return; }
    else a = r[rm | (rex & 1) << 3];
    (void)ripRel;
    if (mod == 1) a = vadd(a, vsxt(fb(), xl)); else if (mod == 2) a = vadd(a, vsxt(fimm(4), xl));
    ea = a; }
  V G(unsigned i, unsigned w) { if (w == 8 && !rex && i >= 4) return vext(r[i - 4], 8, 8); return vtrunc(r[i], w); }
  void W(unsigned i, V v) { if (v.w == 8) { if (!rex && i >= 4) { V o = r[i - 4]; r[i - 4] = vconcat(vext(o, 16, xl - 16), vconcat(v, vext(o, 0, 8))); } else r[i] = vconcat(vext(r[i], 8, xl - 8), v); }
    else if (v.w == 16) r[i] = vconcat(vext(r[i], 16, xl - 16), v); else r[i] = vzx(v, xl); }
  V rdRM(unsigned w) { return isMem ? load(ea, w / 8) : G(rm, w); }
  void wrRM(V v) { if (isMem) store(ea, v, v.w / 8); else W(rm, v); }
  void szp(V v) { SF = vbit(v, v.w - 1); ZF = veq(v, V(0, v.w)); PF = parity(v); }
  V parity(V v) { V p(1, 1); V l = vtrunc(v, 8); for (int i = 0; i < 8; i++) p = vxor(p, vbit(l, i)); return p; }
  V add(V a, V b, V c) { unsigned w = a.w; V s = vadd(vadd(a, b), vzx(c, w)); szp(s); if (c.is(0)) CF = vult(s, a); else { CF = vor(vult(vadd(a, b), a), vult(s, vadd(a, b))); } OF = vbit(vand(vxor(s, a), vxor(s, b)), w - 1); return s; }
  V sub(V a, V b, V c) { unsigned w = a.w; V s = vsub(vsub(a, b), vzx(c, w)); V bw = vor(vult(a, b), vand(veq(a, b), c)); SF = vbit(s, w - 1); ZF = c.is(0) ? veq(a, b) : veq(s, V(0, w)); PF = parity(s); OF = vbit(vand(vxor(a, b), vxor(a, s)), w - 1); CF = bw; return s; }
  V logic(V v) { szp(v); CF = V(0, 1); OF = V(0, 1); return v; }
  V undefd(const char* n) { static u64 k = 0; return var(std::string("und.") + n + std::to_string(steps), 1); }
  // returns false when the result is not written (CMP)
  V alu(unsigned op, V a, V b, bool& wr) { wr = op != 7; switch (op) { case 0: return add(a, b, V(0, 1)); case 1: return logic(vor(a, b)); case 2: return add(a, b, CF); case 3: return sub(a, b, CF); case 4: return logic(vand(a, b)); case 5: case 7: return sub(a, b, V(0, 1)); default: return logic(vxor(a, b)); } }
  V cond(unsigned c) { V x; switch (c >> 1) { case 0: x = OF; break; case 1: x = CF; break; case 2: x = ZF; break; case 3: x = vor(CF, ZF); break; case 4: x = SF; break; case 5: x = PF; break; case 6: x = vxor(SF, OF); break; default: x = vor(ZF, vxor(SF, OF)); } return (c & 1) ? vnot(x) : x; }
  void jrel(V off) { jump(vadd(V(ip, xl), vsxt(off, xl))); }
  void push(V v) { r[4] = vsub(r[4], V(xl / 8, xl)); store(r[4], v, xl / 8); }
  V pop() { V v = load(r[4], xl / 8); r[4] = vadd(r[4], V(xl / 8, xl)); return v; }
  V shift(unsigned op, V a, V cnt, bool constant) { // cnt: 8 bit
    unsigned w = a.w; V m = vzx(vand(cnt, V(w == 64 ? 63 : 31, 8)), w); V z = veq(m, V(0, w)); V res, cf = CF, of = OF;
    V nm1 = vsub(m, V(1, w)); 
    if (op == 0) { res = vrotl(a, m); CF = vite(z, CF, vbit(res, 0)); OF = vite(z, OF, undefd("of")); return res; }
    if (op == 1) { res = vrotl(a, vsub(V(0, w), m)); CF = vite(z, CF, vbit(res, w - 1)); OF = vite(z, OF, undefd("of")); return res; }
    if (op == 4 || op == 6) { res = vshl(a, m); cf = vbit(vshl(a, nm1), w - 1); of = undefd("of"); }
    else if (op == 5) { res = vlshr(a, m); cf = vbit(vlshr(a, nm1), 0); of = undefd("of"); }
    else if (op == 7) { res = vashr(a, m); cf = vbit(vashr(a, nm1), 0); of = undefd("of"); }
    else undef("rotate through carry");
    V zf = ZF, sf = SF, c0 = CF, o0 = OF, p0 = PF; szp(res); ZF = vite(z, zf, ZF); SF = vite(z, sf, SF); PF = vite(z, p0, PF); CF = vite(z, c0, cf); OF = vite(z, o0, of); return res; }
  V shiftd(bool left, V a, V b, V cnt) { unsigned w = a.w; V m = vzx(vand(cnt, V(w == 64 ? 63 : 31, 8)), w); V z = veq(m, V(0, w)); V inv = vxor(m, V(w - 1, w)); // (w-1-m)
    V res = left ? vor(vshl(a, m), vlshr(vlshr(b, V(1, w)), inv)) : vor(vlshr(a, m), vshl(vshl(b, V(1, w)), inv)); V zf = ZF, sf = SF, p0 = PF, c0 = CF, o0 = OF; szp(res); ZF = vite(z, zf, ZF); SF = vite(z, sf, SF); PF = vite(z, p0, PF); CF = vite(z, c0, undefd("cf")); OF = vite(z, o0, undefd("of")); return res; }
  void divide(V b, bool sg) { unsigned w = b.w; V lo = vtrunc(r[0], w), hi = vtrunc(r[2], w), q, m; 
    if (!E.provable(vne(b, V(0, w)))) { E.assume(veq(b, V(0, w))); throw PathStop{"division instruction may fault (division by zero)", 1}; }
    if (!sg) { if (E.provable(veq(hi, V(0, w)))) { q = vudiv(lo, b); m = vurem(lo, b); } else if (w == 32) { if (!E.provable(vult(hi, b))) { E.assume(vnot(vult(hi, b))); throw PathStop{"division instruction may fault (quotient overflow)", 1}; } V d = vconcat(hi, lo), b6 = vzx(b, 64); q = vtrunc(vudiv(d, b6), 32); m = vtrunc(vurem(d, b6), 32); } else { E.assume(vne(hi, V(0, w))); throw PathStop{"division with a high word that may be non-zero", 1}; } }
    else { V ext = veq(hi, vashr(lo, V(w - 1, w))); if (!E.provable(ext)) { E.assume(vnot(ext)); throw PathStop{"signed division with a high word that is not the sign extension", 1}; }
      V ov = vand(veq(b, V(maskw(w), w)), veq(lo, V(1ULL << (w - 1), w))); if (!E.provable(vnot(ov))) { E.assume(ov); throw PathStop{"division instruction may fault (signed overflow)", 1}; } q = vsdiv(lo, b); m = vsrem(lo, b); }
    W(0, q); W(2, m); CF = undefd("c"); ZF = undefd("z"); SF = undefd("s"); OF = undefd("o"); }
  void step() override {
    ip = pc; rep = repne = o16 = lockp = vex = vexL = false; rex = 0; vvvv = 0; u8 op;
    for (;;) { op = fc(); if (op == 0x66) o16 = true; else if (op == 0xf2) repne = true; else if (op == 0xf3) rep = true; else if (op == 0xf0) lockp = true; else break; }
    if (L && (op & 0xf0) == 0x40) { rex = op; op = fc(); }
    osz = (rex & 8) ? 64 : o16 ? 16 : 32;
    if (op == 0xc4 || op == 0xc5) { if (L || (cc(fetch(ip, 1)) >= 0xc0)) { vexOp(op); return; } }
    if (op == 0x0f) { twoByte(); return; }
    unsigned w = osz; u64 fall;
    if (op < 0x40 && (op & 7) <= 5) { unsigned k = op >> 3; bool wr; switch (op & 7) {
        case 1: { modrm(0); V v = alu(k, rdRM(w), G(reg, w), wr); if (wr) wrRM(v); break; }
        case 0: { modrm(0); V v = alu(k, rdRM(8), G(reg, 8), wr); if (wr) wrRM(v); break; }
        case 3: { modrm(0); V b = rdRM(w); V v = alu(k, G(reg, w), b, wr); if (wr) W(reg, v); break; }
        case 2: { modrm(0); V b = rdRM(8); V v = alu(k, G(reg, 8), b, wr); if (wr) W(reg, v); break; }
        case 5: { V i = w == 16 ? fimm(2) : vsxt(fimm(4), w); V v = alu(k, G(0, w), i, wr); if (wr) W(0, v); break; }
        default: undef("alu"); } pc = ip; return; }
    if (op >= 0x50 && op <= 0x57) { V v = r[(op & 7) | (rex & 1) << 3]; push(v); pc = ip; return; }
    if (op >= 0x58 && op <= 0x5f) { V v = pop(); r[(op & 7) | (rex & 1) << 3] = v; pc = ip; return; }
    if (op >= 0x70 && op <= 0x7f) { V off = fb(); if (E.branch(cond(op & 15))) { jrel(off); return; } pc = ip; return; }
    if (op >= 0x90 && op <= 0x97) { unsigned i = (op & 7) | (rex & 1) << 3; if (i) { V a = G(0, w), b = G(i, w); W(0, b); W(i, a); } pc = ip; return; }
    if (op >= 0xb8 && op <= 0xbf) { unsigned i = (op & 7) | (rex & 1) << 3; W(i, fimm(w / 8)); pc = ip; return; }
    if (op >= 0xb0 && op <= 0xb7) { W((op & 7) | (rex & 1) << 3, fimm(1)); pc = ip; return; }
    switch (op) {
    case 0x63: { if (!L) undef("arpl"); modrm(0); V v = rdRM(32); W(reg, w == 64 ? vsxt(v, 64) : v); break; }
    case 0x68: { push(vsxt(fimm(4), xl)); break; } case 0x6a: { push(vsxt(fb(), xl)); break; }
    case 0x69: case 0x6b: { modrm(op == 0x69 ? (w == 16 ? 2 : 4) : 1); V a = rdRM(w); V i = op == 0x6b ? vsxt(fb(), w) : w == 16 ? fimm(2) : vsxt(fimm(4), w); W(reg, imul(a, i)); break; }
    case 0x80: { modrm(1); V i = fb(); bool wr; V v = alu(reg & 7, rdRM(8), i, wr); if (wr) wrRM(v); break; }
    case 0x81: case 0x83: { modrm(op == 0x83 ? 1 : w == 16 ? 2 : 4); V i = op == 0x83 ? vsxt(fb(), w) : w == 16 ? fimm(2) : vsxt(fimm(4), w); bool wr; V v = alu(reg & 7, rdRM(w), i, wr); if (wr) wrRM(v); break; }
    case 0x84: { modrm(0); logic(vand(rdRM(8), G(reg, 8))); break; } case 0x85: { modrm(0); logic(vand(rdRM(w), G(reg, w))); break; }
    case 0x86: { modrm(0); V a = rdRM(8), b = G(reg, 8); wrRM(b); W(reg, a); break; }
    case 0x87: { modrm(0); V a = rdRM(w), b = G(reg, w); wrRM(b); W(reg, a); break; }
    case 0x88: { modrm(0); wrRM(G(reg, 8)); break; } case 0x89: { modrm(0); wrRM(G(reg, w)); break; }
    case 0x8a: { modrm(0); W(reg, rdRM(8)); break; } case 0x8b: { modrm(0); W(reg, rdRM(w)); break; }
    case 0x8d: { modrm(0); if (!isMem) undef("lea"); W(reg, vtrunc(ea, w)); break; }
    case 0x8f: { V v = pop(); modrm(0); if (isMem) store(ea, v, xl / 8); else r[rm] = v; break; } // an address based on sp uses the incremented sp
    case 0x98: { if (w == 64) W(0, vsxt(vtrunc(r[0], 32), 64)); else if (w == 32) W(0, vsxt(vtrunc(r[0], 16), 32)); else undef("cbw"); break; }
    case 0x99: { W(2, vashr(vtrunc(r[0], w), V(w - 1, w))); break; }
    case 0x9c: { V v = CF; v = vconcat(vconcat(ZF, V(0, 3)), vconcat(PF, vconcat(V(1, 1), CF))); /* bits: CF 0, 1 1, PF 2, 3..5 0, ZF 6 */ v = vzx(vconcat(OF, vconcat(V(0, 3), vconcat(SF, v))), xl); push(v); break; }
    case 0x9d: { V v = pop(); CF = vbit(v, 0); PF = vbit(v, 2); ZF = vbit(v, 6); SF = vbit(v, 7); OF = vbit(v, 11); break; }
    case 0xa8: { V i = fb(); logic(vand(G(0, 8), i)); break; } case 0xa9: { V i = w == 16 ? fimm(2) : vsxt(fimm(4), w); logic(vand(G(0, w), i)); break; }
    case 0xa1: { V a = fimm(xl / 8); W(0, load(a, w / 8)); break; } case 0xa3: { V a = fimm(xl / 8); store(a, G(0, w), w / 8); break; }
    case 0xc0: { modrm(1); V c = fb(); wrRM(shift(reg & 7, rdRM(8), c, true)); break; }
    case 0xc1: { modrm(1); V c = fb(); wrRM(shift(reg & 7, rdRM(w), c, true)); break; }
    case 0xd1: { modrm(0); wrRM(shift(reg & 7, rdRM(w), V(1, 8), true)); break; }
    case 0xd3: { modrm(0); wrRM(shift(reg & 7, rdRM(w), vtrunc(r[1], 8), false)); break; }
    case 0xc2: { V n = fimm(2); V t = pop(); r[4] = vadd(r[4], vzx(n, xl)); jump(t); return; }
    case 0xc3: { V t = pop(); jump(t); return; }
    case 0xc6: { modrm(1); if (reg & 7) undef("c6"); wrRM(fb()); break; }
    case 0xc7: { modrm(w == 16 ? 2 : 4); if (reg & 7) undef("c7"); wrRM(w == 16 ? fimm(2) : vsxt(fimm(4), w)); break; }
    case 0xcc: throw PathStop{"breakpoint executed", 1};
    case 0xd9: case 0xdd: { modrm(0); unsigned d = op == 0xdd ? 64 : 32; if (!isMem) undef("x87"); if ((reg & 7) == 0) { fst.push_back(load(ea, d / 8)); } else if ((reg & 7) == 3) { if (fst.empty()) undef("x87 stack"); V v = fst.back(); fst.pop_back(); if (v.w != d) v = fpop(d == 64 ? "fcvt.d.s" : "fcvt.s.d", d, v); store(ea, v, d / 8); } else undef("x87"); break; }
    case 0xe2: { V off = fb(); r[1] = vsub(r[1], V(1, xl)); if (E.branch(vne(r[1], V(0, xl)))) { jrel(off); return; } break; }
    case 0xe8: { V off = fimm(4); push(V(ip, xl)); jrel(off); return; }
    case 0xe9: { V off = fimm(4); jrel(off); return; } case 0xeb: { V off = fb(); jrel(off); return; }
    case 0xf6: { modrm(0); if (isMem) undef("f6 mem"); unsigned k = reg & 7; if (k == 0) { V i = fb(); logic(vand(rdRM(8), i)); } else undef("f6"); break; }
    case 0xf7: { unsigned k = cc(vext(fetch(ip, 1), 3, 3)); modrm(k < 2 ? (w == 16 ? 2 : 4) : 0); V a; 
      if (k == 0) { V i = w == 16 ? fimm(2) : vsxt(fimm(4), w); logic(vand(rdRM(w), i)); break; } a = rdRM(w);
      if (k == 2) wrRM(vnot(a)); else if (k == 3) { V z = sub(V(0, w), a, V(0, 1)); wrRM(z); }
      else if (k == 4 || k == 5) { V b = G(0, w), hi, lo = vmul(a, b); if (w == 32) { V p = k == 4 ? vmul(vzx(a, 64), vzx(b, 64)) : vmul(vsxt(a, 64), vsxt(b, 64)); lo = vext(p, 0, 32); hi = vext(p, 32, 32); } else hi = k == 4 ? vmulhu(a, b) : vmulhs(a, b); W(0, lo); W(2, hi); OF = CF = k == 4 ? vne(hi, V(0, w)) : vne(hi, vashr(lo, V(w - 1, w))); ZF = undefd("z"); SF = undefd("s"); PF = undefd("p"); }
      else if (k == 6 || k == 7) divide(a, k == 7); else undef("f7"); break; }
    case 0xff: { modrm(0); unsigned k = reg & 7; if (k == 0 || k == 1) { V c = CF; V v = k ? sub(rdRM(w), V(1, w), V(0, 1)) : add(rdRM(w), V(1, w), V(0, 1)); CF = c; wrRM(v); } else if (k == 2) { V t = isMem ? load(ea, xl / 8) : r[rm]; push(V(ip, xl)); jump(t); return; } else if (k == 4) { V t = isMem ? load(ea, xl / 8) : r[rm]; jump(t); return; } else if (k == 6) { push(isMem ? load(ea, xl / 8) : r[rm]); } else undef("ff"); break; }
    default: { char b[16]; snprintf(b, 16, "%02x", op); undef(b); } }
    (void)fall; pc = ip; }
  V imul(V a, V b) { unsigned w = a.w; V lo; if (w == 32) { V p = vmul(vsxt(a, 64), vsxt(b, 64)); lo = vext(p, 0, 32); OF = CF = vne(vext(p, 32, 32), vashr(lo, V(31, 32))); } else if (w == 64) { lo = vmul(a, b); OF = CF = vne(vmulhs(a, b), vashr(lo, V(63, 64))); } else { lo = vmul(a, b); OF = CF = undefd("m"); } ZF = undefd("z"); SF = undefd("s"); PF = undefd("p"); return lo; }
  // ---- SSE helpers: 128 bit values as pairs
  struct Q { V v[4]; }; // 64 bit lanes
  Q XR(unsigned i) { Q q; q.v[0] = f[i]; q.v[1] = fh[i]; q.v[2] = yh[0][i]; q.v[3] = yh[1][i]; return q; }
  V xl_(unsigned i, unsigned w) { return vtrunc(f[i], w); }
  Q rdX(unsigned n) { // n bytes
    Q q; for (int k = 0; k < 4; k++) q.v[k] = V(0, 64); if (!isMem) { q = XR(rm); return q; }
    if (n <= 8) { q.v[0] = vzx(load(ea, n), 64); return q; } for (unsigned k = 0; k < n / 8; k++) q.v[k] = load(vadd(ea, V(8 * k, xl)), 8); return q; }
  void alignX(unsigned n) { if (isMem) needAligned(ea, n); }
  void wrXlo(unsigned i, V v) { f[i] = v.w == 64 ? v : vconcat(vext(f[i], v.w, 64 - v.w), v); }
  static V lane(const Q& q, unsigned i, unsigned w) { unsigned p = i * w; return vext(q.v[p / 64], p % 64, w); }
  static void setLane(Q& q, unsigned i, V e) { unsigned w = e.w, p = i * w; V& o = q.v[p / 64]; unsigned b = p % 64; if (w == 64) { o = e; return; } V x = e; if (b) x = vconcat(x, vext(o, 0, b)); if (b + w < 64) x = vconcat(vext(o, b + w, 64 - b - w), x); o = x; }
  void wrX(unsigned i, const Q& q) { f[i] = q.v[0]; fh[i] = q.v[1]; if (vex) { yh[0][i] = vexL ? q.v[2] : V(0, 64); yh[1][i] = vexL ? q.v[3] : V(0, 64); } }
  void stX(const Q& q, unsigned n) { if (!isMem) { wrX(rm, q); return; } for (unsigned k = 0; k < n / 8; k++) store(vadd(ea, V(8 * k, xl)), q.v[k], 8); }
  int pfx() { return o16 ? 1 : rep ? 2 : repne ? 3 : 0; }
  void twoByte() {
    u8 op = fc(); unsigned w = osz;
    if (op == 0x38 || op == 0x3a) { u8 o2 = fc(); sse38(op, o2); pc = ip; return; }
    if (op >= 0x40 && op <= 0x4f) { modrm(0); V b = rdRM(w); V a = G(reg, w); W(reg, vite(cond(op & 15), b, a)); pc = ip; return; }
    if (op >= 0x80 && op <= 0x8f) { V off = fimm(4); if (E.branch(cond(op & 15))) { jrel(off); return; } pc = ip; return; }
    if (op >= 0x90 && op <= 0x9f) { modrm(0); wrRM(vzx(cond(op & 15), 8)); pc = ip; return; }
    if (op >= 0xc8 && op <= 0xcf) { unsigned i = (op & 7) | (rex & 1) << 3; if (w == 16) undef("bswap16"); W(i, vbswap(G(i, w))); pc = ip; return; }
    switch (op) {
    case 0x18: modrm(0); pc = ip; return; case 0x0d: modrm(0); pc = ip; return;
    case 0x1e: case 0x1f: modrm(0); pc = ip; return;
    case 0xae: { modrm(0); if (isMem) undef("0fae"); pc = ip; return; }
    case 0xa4: case 0xac: { modrm(1); V c = fb(); wrRM(shiftd(op == 0xa4, rdRM(w), G(reg, w), c)); pc = ip; return; }
    case 0xa5: case 0xad: { modrm(0); wrRM(shiftd(op == 0xa5, rdRM(w), G(reg, w), vtrunc(r[1], 8))); pc = ip; return; }
    case 0xaf: { modrm(0); V b = rdRM(w); W(reg, imul(G(reg, w), b)); pc = ip; return; }
    case 0xb0: case 0xb1: { unsigned ww = op == 0xb0 ? 8 : w; modrm(0); if (isMem && !lockp) throw PathStop{"compare and exchange without the lock prefix is not atomic", 1}; V d = rdRM(ww), a = G(0, ww), s = G(reg, ww); sub(a, d, V(0, 1)); V eq = veq(a, d); if (E.branch(eq)) wrRM(s); else { if (isMem) store(ea, d, ww / 8); else wrRM(d); W(0, d); } pc = ip; return; }
    case 0xb6: { modrm(0); W(reg, vzx(rdRM(8), w)); pc = ip; return; } case 0xb7: { modrm(0); W(reg, vzx(rdRM(16), w)); pc = ip; return; }
    case 0xbe: { modrm(0); W(reg, vsxt(rdRM(8), w)); pc = ip; return; } case 0xbf: { modrm(0); W(reg, vsxt(rdRM(16), w)); pc = ip; return; }
    case 0xbc: case 0xbd: { modrm(0); V a = rdRM(w); V z = veq(a, V(0, w)); if (rep) { V v = op == 0xbd ? vclz(a) : vctz(a); CF = z; ZF = veq(v, V(0, w)); SF = undefd("s"); OF = undefd("o"); PF = undefd("p"); W(reg, v); }
        else { V v = op == 0xbd ? vsub(V(w - 1, w), vclz(a)) : vctz(a); V o = G(reg, w); ZF = z; CF = undefd("c"); SF = undefd("s"); OF = undefd("o"); PF = undefd("p"); /* destination unchanged for zero input (as on all known processors, relied upon by the library) */ if (w == 64 || !L) W(reg, vite(z, o, v)); else r[reg] = vite(z, r[reg], vzx(v, 64)); } pc = ip; return; } }
    sse(op); pc = ip; }
  V fp2(unsigned k, V a, V b) { unsigned w = a.w; switch (k) { case 8: return fpop("fadd", w, a, b, V(), true); case 9: return fpop("fmul", w, a, b, V(), true); case 12: return fpop("fsub", w, a, b); case 14: return fpop("fdiv", w, a, b); } undef("sse arith"); }
  void sse(u8 op) {
    int p = pfx(); unsigned sw = p == 3 ? 64 : 32; unsigned n = vexL ? 32 : 16; auto src1 = [&]() { return vex ? XR(vvvv) : XR(reg); };
    auto packed = [&](unsigned ew, std::function<V(V, V)> fn) { modrm(0); if (!vex) alignX(16); Q b = rdX(n), a = src1(), o = XR(reg); for (unsigned i = 0; i < n * 8 / ew; i++) setLane(o, i, fn(lane(a, i, ew), lane(b, i, ew))); wrX(reg, o); };
    switch (op) {
    case 0x10: if (p >= 2) { modrm(0); if (isMem) { Q q; for (auto& x : q.v) x = V(0, 64); q.v[0] = vzx(load(ea, sw / 8), 64); wrX(reg, q); } else { V v = vtrunc(f[rm], sw); if (vex) { Q q = XR(vvvv); setLane(q, 0, v); wrX(reg, q); } else wrXlo(reg, v); } return; } modrm(0); wrX(reg, rdX(n)); return;
    case 0x11: if (p >= 2) { modrm(0); if (isMem) store(ea, vtrunc(f[reg], sw), sw / 8); else { V v = vtrunc(f[reg], sw); if (vex) { Q q = XR(vvvv); setLane(q, 0, v); wrX(rm, q); } else wrXlo(rm, v); } return; } modrm(0); stX(XR(reg), n); return;
    case 0x12: { modrm(0); Q q = src1(); if (p == 3) { Q s = rdX(vexL ? 32 : isMem ? 8 : 16); q.v[0] = q.v[1] = s.v[0]; q.v[2] = q.v[3] = s.v[2]; } else if (p == 2) { Q s = rdX(n); for (unsigned i = 0; i < n / 4; i++) setLane(q, i, lane(s, i & ~1u, 32)); } else if (isMem) q.v[0] = load(ea, 8); else q.v[0] = fh[rm]; wrX(reg, q); return; }
    case 0x13: { modrm(0); store(ea, f[reg], 8); return; }
    case 0x14: { modrm(0); if (!vex) alignX(16); Q s = rdX(16), q = src1(), o = q; if (p == 1) { o.v[0] = q.v[0]; o.v[1] = s.v[0]; } else { o.v[0] = vconcat(lane(s, 0, 32), lane(q, 0, 32)); o.v[1] = vconcat(lane(s, 1, 32), lane(q, 1, 32)); } wrX(reg, o); return; }
    case 0x16: { modrm(0); Q q = src1(); if (p == 2) { Q s = rdX(n); for (unsigned i = 0; i < n / 4; i++) setLane(q, i, lane(s, i | 1u, 32)); } else if (isMem) q.v[1] = load(ea, 8); else q.v[1] = f[rm]; wrX(reg, q); return; }
    case 0x17: { modrm(0); store(ea, fh[reg], 8); return; }
    case 0x28: { modrm(0); alignX(n); wrX(reg, rdX(n)); return; } case 0x29: { modrm(0); alignX(n); stX(XR(reg), n); return; }
    case 0x6f: { modrm(0); if (p == 1) alignX(n); wrX(reg, rdX(n)); return; } case 0x7f: { modrm(0); if (p == 1) alignX(n); stX(XR(reg), n); return; }
    case 0x2a: { modrm(0); if (p < 2) undef("cvtpi"); V a = rdRM(osz == 64 ? 64 : 32); wrXlo(reg, fcvtFromInt(a, sw, true)); return; }
    case 0x2c: { modrm(0); if (p < 2) undef("cvt"); V a = isMem ? load(ea, sw / 8) : vtrunc(f[rm], sw); W(reg, fcvtToInt(a, osz == 64 ? 64 : 32, true)); return; }
    case 0x2e: case 0x2f: { modrm(0); unsigned cw = p == 1 ? 64 : 32; V a = vtrunc(f[reg], cw), b = isMem ? load(ea, cw / 8) : vtrunc(f[rm], cw); V un = vor(fIsNaN(a), fIsNaN(b)); ZF = vor(un, fcmpEq(a, b)); PF = un; CF = vor(un, fcmpLt(a, b)); OF = V(0, 1); SF = V(0, 1); return; }
    case 0x50: { modrm(0); V v(0, 32); unsigned ew = p == 1 ? 64 : 32; Q q = XR(rm); V acc; for (unsigned i = 0; i < n * 8 / ew; i++) { V b = vbit(lane(q, i, ew), ew - 1); acc = i ? vconcat(b, acc) : b; } W(reg, vzx(acc, 32)); return; }
    case 0x54: packed(64, [](V a, V b) { return vand(a, b); }); return; case 0x56: packed(64, [](V a, V b) { return vor(a, b); }); return; case 0x57: packed(64, [](V a, V b) { return vxor(a, b); }); return; case 0x55: packed(64, [](V a, V b) { return vand(vnot(a), b); }); return;
    case 0xdb: packed(64, [](V a, V b) { return vand(a, b); }); return; case 0xeb: packed(64, [](V a, V b) { return vor(a, b); }); return; case 0xef: packed(64, [](V a, V b) { return vxor(a, b); }); return; case 0xdf: packed(64, [](V a, V b) { return vand(vnot(a), b); }); return;
    case 0x76: packed(32, [](V a, V b) { return vite(veq(a, b), V(0xffffffff, 32), V(0, 32)); }); return;
    case 0x58: case 0x59: case 0x5c: case 0x5e: { if (p < 2) undef("packed fp"); modrm(0); V b = isMem ? load(ea, sw / 8) : vtrunc(f[rm], sw); if (vex) undef("vex fp"); wrXlo(reg, fp2(op & 15, vtrunc(f[reg], sw), b)); return; }
    case 0x5a: { modrm(0); if (p == 3) { V b = isMem ? load(ea, 8) : f[rm]; wrXlo(reg, fpop("fcvt.s.d", 32, b)); } else if (p == 2) { V b = isMem ? load(ea, 4) : vtrunc(f[rm], 32); wrXlo(reg, fpop("fcvt.d.s", 64, b)); }
        else if (p == 0) { V e[4]; Q sq; if (!isMem) sq = XR(rm); for (unsigned i = 0; i < n / 8; i++) e[i] = isMem ? load(vadd(ea, V(4 * i, xl)), 4) : lane(sq, i, 32); Q q = XR(reg); for (unsigned i = 0; i < n / 8; i++) q.v[i] = fpop("fcvt.d.s", 64, e[i]); wrX(reg, q); }
        else { Q s = rdX(16); Q q = XR(reg); q.v[0] = vconcat(fpop("fcvt.s.d", 32, s.v[1]), fpop("fcvt.s.d", 32, s.v[0])); q.v[1] = V(0, 64); wrX(reg, q); } return; }
    case 0x63: { modrm(0); Q s = rdX(n), q = src1(), o = q; auto sat = [](V x) { return vite(vslt(x, V(0xff80, 16)), V(0x80, 8), vite(vslt(V(0x7f, 16), x), V(0x7f, 8), vtrunc(x, 8))); }; for (unsigned h = 0; h < n / 16; h++) for (unsigned i = 0; i < 8; i++) { setLane(o, h * 16 + i, sat(lane(q, h * 8 + i, 16))); setLane(o, h * 16 + 8 + i, sat(lane(s, h * 8 + i, 16))); } wrX(reg, o); return; }
    case 0x6e: { modrm(0); V v = rdRM(osz == 64 ? 64 : 32); Q q; for (auto& x : q.v) x = V(0, 64); q.v[0] = vzx(v, 64); wrX(reg, q); return; }
    case 0x7e: if (p == 2) { modrm(0); V v = isMem ? load(ea, 8) : f[rm]; Q q; for (auto& x : q.v) x = V(0, 64); q.v[0] = v; wrX(reg, q); return; } modrm(0); wrRM(vtrunc(f[reg], osz == 64 ? 64 : 32)); return;
    case 0xd6: { modrm(0); if (isMem) store(ea, f[reg], 8); else { f[rm] = f[reg]; fh[rm] = V(0, 64); } return; }
    case 0x70: { modrm(1); if (p == 1 && !vex) alignX(16); Q s = rdX(n), o = s; unsigned im = fc(); for (unsigned h = 0; h < n / 16; h++) { if (p == 1) for (int i = 0; i < 4; i++) setLane(o, h * 4 + i, lane(s, h * 4 + (im >> (2 * i) & 3), 32)); else { unsigned b = p == 3 ? 0 : 4; for (int i = 0; i < 4; i++) setLane(o, h * 8 + b + i, lane(s, h * 8 + b + (im >> (2 * i) & 3), 16)); } } wrX(reg, o); return; }
    case 0x72: case 0x73: { modrm(1); unsigned im = fc(), k = reg & 7; if (isMem) undef("psh mem"); Q q = XR(rm), o = q; unsigned d = vex ? vvvv : rm; unsigned ew = op == 0x72 ? 32 : 64;
        if (op == 0x73 && (k == 3 || k == 7)) { for (unsigned h = 0; h < n / 16; h++) for (unsigned i = 0; i < 16; i++) { int j = k == 3 ? (int)(i + im) : (int)i - (int)im; setLane(o, h * 16 + i, j < 0 || j > 15 ? V(0, 8) : lane(q, h * 16 + j, 8)); } }
        else for (unsigned i = 0; i < n * 8 / ew; i++) { V e = lane(q, i, ew); e = k == 2 ? (im >= ew ? V(0, ew) : vlshr(e, V(im, ew))) : k == 6 ? (im >= ew ? V(0, ew) : vshl(e, V(im, ew))) : k == 4 && ew == 32 ? vashr(e, V(im >= ew ? ew - 1 : im, ew)) : (undef("psh"), e); setLane(o, i, e); } wrX(d, o); return; }
    case 0xc2: { modrm(1); unsigned im = fc(); if (p < 2) undef("cmpps"); V a = vtrunc(f[reg], sw), b = isMem ? load(ea, sw / 8) : vtrunc(f[rm], sw); V c; switch (im & 3) { case 0: c = fcmpEq(a, b); break; case 1: c = fcmpLt(a, b); break; case 2: c = vor(fcmpLt(a, b), fcmpEq(a, b)); break; default: c = vor(fIsNaN(a), fIsNaN(b)); } if (im & 4) c = vnot(c); wrXlo(reg, vite(c, V(maskw(sw), sw), V(0, sw))); return; }
    case 0xc4: { modrm(1); V v = isMem ? load(ea, 2) : vtrunc(r[rm], 16); unsigned im = fc(); Q q = src1(); setLane(q, im & 7, v); wrX(reg, q); return; }
    case 0xc5: { modrm(1); unsigned im = fc(); W(reg, vzx(lane(XR(rm), im & 7, 16), 32)); return; }
    case 0xc6: { modrm(1); Q s = rdX(n), q = src1(), o = q; unsigned im = fc(); if (p == 1) { for (unsigned h = 0; h < n / 16; h++) { o.v[2 * h] = q.v[2 * h + (im >> (2 * h) & 1)]; o.v[2 * h + 1] = s.v[2 * h + (im >> (2 * h + 1) & 1)]; } } else for (unsigned h = 0; h < n / 16; h++) for (int i = 0; i < 4; i++) setLane(o, h * 4 + i, lane(i < 2 ? q : s, h * 4 + (im >> (2 * i) & 3), 32)); wrX(reg, o); return; }
    case 0xd7: { modrm(0); Q q = XR(rm); V acc; for (unsigned i = 0; i < n; i++) { V b = vbit(lane(q, i, 8), 7); acc = i ? vconcat(b, acc) : b; } W(reg, vzx(acc, 32)); return; }
    default: { char b[24]; snprintf(b, 24, "0f %02x", op); undef(b); } } }
  void sse38(u8 map, u8 op) {
    unsigned n = vexL ? 32 : 16; if (!o16) undef("0f38 without 66"); auto src1 = [&]() { return vex ? XR(vvvv) : XR(reg); };
    if (map == 0x38) {
      if (op == 0x00) { modrm(0); Q s = rdX(n), a = src1(), o = a; for (unsigned i = 0; i < n; i++) { V m = lane(s, i, 8); V v(0, 8); V ix = vext(m, 0, 4); V e(0, 8); for (int k = 0; k < 16; k++) e = vite(veq(ix, V(k, 4)), lane(a, (i & 16) + k, 8), e); setLane(o, i, vite(vbit(m, 7), V(0, 8), e)); } wrX(reg, o); return; }
      if ((op >= 0x20 && op <= 0x25) || (op >= 0x30 && op <= 0x35)) { static const u8 fw[] = {8, 8, 8, 16, 16, 32}, tw[] = {16, 32, 64, 32, 64, 64}; unsigned k = op & 15; bool sg = op < 0x30; modrm(0); unsigned cnt = n * 8 / tw[k]; unsigned sb = cnt * fw[k] / 8; Q s = rdX(sb), o = XR(reg), t = s; for (unsigned i = 0; i < cnt; i++) { V e = lane(t, i, fw[k]); setLane(o, i, sg ? vsxt(e, tw[k]) : vzx(e, tw[k])); } wrX(reg, o); return; }
      if (vex && (op == 0x18 || op == 0x19 || op == 0x58 || op == 0x59 || op == 0x78 || op == 0x79)) { unsigned ew = op == 0x18 || op == 0x58 ? 32 : op == 0x19 || op == 0x59 ? 64 : op == 0x78 ? 8 : 16; modrm(0); Q s = rdX(ew / 8), o = XR(reg); V e = lane(s, 0, ew); for (unsigned i = 0; i < n * 8 / ew; i++) setLane(o, i, e); wrX(reg, o); return; }
    } else {
      modrm(1);
      if (op == 0x14 || op == 0x15 || op == 0x16 || op == 0x17) { unsigned ew = op == 0x14 ? 8 : op == 0x15 ? 16 : op == 0x16 && (rex & 8) ? 64 : 32; unsigned im = fc(); V e = lane(XR(reg), im & (128 / ew - 1), ew); if (isMem) store(ea, e, ew / 8); else W(rm, ew == 64 ? e : vzx(e, 32)); return; }
      if (op == 0x20 || op == 0x22) { unsigned ew = op == 0x20 ? 8 : (rex & 8) ? 64 : 32; V v = isMem ? load(ea, ew / 8) : vtrunc(r[rm], ew); unsigned im = fc(); Q q = src1(); setLane(q, im & (128 / ew - 1), v); wrX(reg, q); return; }
      if (op == 0x21) { V v; if (isMem) { v = load(ea, 4); unsigned im = fc(); Q q = src1(); setLane(q, im >> 4 & 3, v); for (int i = 0; i < 4; i++) if (im >> i & 1) setLane(q, i, V(0, 32)); wrX(reg, q); } else { unsigned im = fc(); v = lane(XR(rm), im >> 6, 32); Q q = src1(); setLane(q, im >> 4 & 3, v); for (int i = 0; i < 4; i++) if (im >> i & 1) setLane(q, i, V(0, 32)); wrX(reg, q); } return; }
      if (vex && (op == 0x00 || op == 0x01)) { Q s = rdX(32), o = s; unsigned im = fc(); for (int i = 0; i < 4; i++) o.v[i] = s.v[im >> (2 * i) & 3]; wrX(reg, o); return; }
      if (vex && (op == 0x18 || op == 0x38)) { Q s = rdX(16), o = XR(vvvv); unsigned im = fc() & 1; o.v[2 * im] = s.v[0]; o.v[2 * im + 1] = s.v[1]; wrX(reg, o); return; }
      if (vex && (op == 0x19 || op == 0x39)) { unsigned im = fc() & 1; Q s = XR(reg), o = s; o.v[0] = s.v[2 * im]; o.v[1] = s.v[2 * im + 1]; o.v[2] = o.v[3] = V(0, 64); bool l = vexL; vexL = false; stX(o, 16); vexL = l; return; }
    }
    char b[24]; snprintf(b, 24, "0f %02x %02x", map, op); undef(b); }
  void vexOp(u8 op) {
    vex = true; u8 b = fc(); unsigned map = 1, last = b; rex = 0x40; if (!(b & 0x80)) rex |= 4; if (op == 0xc4) { if (!(b & 0x40)) rex |= 2; if (!(b & 0x20)) rex |= 1; map = b & 31; last = fc(); if (last & 0x80) rex |= 8; }
    vvvv = ~(last >> 3) & 15; vexL = last & 4; switch (last & 3) { case 1: o16 = true; break; case 2: rep = true; break; case 3: repne = true; break; } osz = (rex & 8) ? 64 : 32; if (!L) rex = (rex & 8) | 0x40;
    u8 o = fc(); if (map == 1) sse(o); else if (map == 2) sse38(0x38, o); else if (map == 3) sse38(0x3a, o); else undef("vex map"); pc = ip; }
};
Machine* mkX86(Engine& e) { return new X86(e); }
