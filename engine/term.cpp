#include "term.h"
Terms TM;
Terms::Terms() { tab.assign(1 << 16, 0); tabMask = (1 << 16) - 1; n.reserve(1 << 16); n.push_back(Node()); memset(&n[0], 0, sizeof(Node)); }
void Terms::reset() { n.resize(1); varNames.clear(); varTerm.clear(); varByName.clear(); std::fill(tab.begin(), tab.end(), 0); }
static inline u32 hsh(u8 op, u8 w, u16 aux, T a, T b, T c, u64 val) {
  u64 h = op | (u64)w << 8 | (u64)aux << 16; h = h * 0x9E3779B97F4A7C15ULL ^ a; h = h * 0x9E3779B97F4A7C15ULL ^ b; h = h * 0x9E3779B97F4A7C15ULL ^ c; h = h * 0x9E3779B97F4A7C15ULL ^ val; h *= 0x9E3779B97F4A7C15ULL; return (u32)(h >> 32); }
void Terms::grow() {
  std::vector<u32> nt((size_t)(tabMask + 1) * 4, 0); u32 nm = (tabMask + 1) * 4 - 1;
  for (u32 i = 1; i < n.size(); i++) { Node& x = n[i]; u32 h = hsh(x.op, x.w, x.aux, x.a, x.b, x.c, x.val) & nm; while (nt[h]) h = (h + 1) & nm; nt[h] = i; }
  tab.swap(nt); tabMask = nm; }
static void knownBits(Node& x) {
  u64 m = maskw(x.w); x.kz = x.ko = 0;
  auto& n = TM.n;
  switch (x.op) {
  case O_CONST: x.ko = x.val; x.kz = ~x.val & m; break;
  case O_AND: x.kz = n[x.a].kz | n[x.b].kz; x.ko = n[x.a].ko & n[x.b].ko; break;
  case O_OR: x.kz = n[x.a].kz & n[x.b].kz; x.ko = n[x.a].ko | n[x.b].ko; break;
  case O_XOR: x.kz = (n[x.a].kz & n[x.b].kz) | (n[x.a].ko & n[x.b].ko); x.ko = (n[x.a].kz & n[x.b].ko) | (n[x.a].ko & n[x.b].kz); break;
  case O_CONCAT: { unsigned wl = n[x.b].w; x.kz = n[x.a].kz << wl | n[x.b].kz; x.ko = n[x.a].ko << wl | n[x.b].ko; break; }
  case O_EXTRACT: x.kz = (n[x.a].kz >> x.val) & m; x.ko = (n[x.a].ko >> x.val) & m; break;
  case O_ZEXT: x.kz = n[x.a].kz | (m & ~maskw(n[x.a].w)); x.ko = n[x.a].ko; break;
  case O_SEXT: { u64 s = 1ULL << (n[x.a].w - 1); x.kz = n[x.a].kz; x.ko = n[x.a].ko; u64 up = m & ~maskw(n[x.a].w); if (x.kz & s) x.kz |= up; if (x.ko & s) x.ko |= up; break; }
  case O_ITE: x.kz = n[x.b].kz & n[x.c].kz; x.ko = n[x.b].ko & n[x.c].ko; break;
  case O_ADD: case O_SUB: { // low known bits
    u64 ka = n[x.a].kz | n[x.a].ko, kb = n[x.b].kz | n[x.b].ko; u64 k = ka & kb; unsigned cnt = (~k) ? __builtin_ctzll(~k) : 64; if (cnt > x.w) cnt = x.w;
    u64 lm = maskw(cnt); if (!cnt) lm = 0; u64 v = x.op == O_ADD ? n[x.a].ko + n[x.b].ko : n[x.a].ko - n[x.b].ko; x.ko = v & lm; x.kz = ~v & lm;
    if (x.op == O_ADD) { // leading zeros
      u64 ma = m & ~n[x.a].kz, mb = m & ~n[x.b].kz; u128 s = (u128)ma + mb; if (s <= m) { u64 ss = (u64)s; unsigned lz = ss ? __builtin_clzll(ss) : 64; u64 up = lz == 0 ? 0 : lz >= 64 ? ~0ULL : ~(~0ULL >> lz); x.kz |= up & m; x.kz &= ~x.ko; } }
    break; }
  case O_MUL: { u64 za = ~n[x.a].kz & m, zb = ~n[x.b].kz & m; unsigned tz = (za ? __builtin_ctzll(za) : 64) + (zb ? __builtin_ctzll(zb) : 64); if (tz > x.w) tz = x.w; x.kz = maskw(tz); if (!tz) x.kz = 0; break; }
  case O_LSHR: case O_UDIV: { u64 ma = m & ~n[x.a].kz; unsigned lz = ma ? __builtin_clzll(ma) : 64; u64 up = lz == 0 ? 0 : lz >= 64 ? ~0ULL : ~(~0ULL >> lz); if (x.op == O_LSHR) x.kz = up & m; break; }
  default: break;
  }
}
T Terms::mk(u8 op, u8 w, u16 aux, T a, T b, T c, u64 val) {
  u32 h = hsh(op, w, aux, a, b, c, val) & tabMask;
  while (tab[h]) { Node& x = n[tab[h]]; if (x.op == op && x.w == w && x.aux == aux && x.a == a && x.b == b && x.c == c && x.val == val) return tab[h]; h = (h + 1) & tabMask; }
  Node x; x.op = op; x.w = w; x.aux = aux; x.a = a; x.b = b; x.c = c; x.val = val; knownBits(x);
  n.push_back(x); T id = n.size() - 1; tab[h] = id;
  if (n.size() * 2 > tabMask) grow();
  return id;
}
u32 Terms::uf(const std::string& name, bool commut, std::function<u64(u64,u64,u64)> ev) {
  auto it = ufByName.find(name); if (it != ufByName.end()) return it->second;
  ufs.push_back({name, commut, ev, nullptr}); return ufByName[name] = ufs.size() - 1; }

#define N(x) TM.n[x]
static inline u8 opOf(const V& v) { return v.t ? N(v.t).op : (u8)O_CONST; }
static V fin(T t) { // constant folding by known bits
  const Node& x = N(t); if (x.op == O_CONST) return V(x.val, x.w);
  if ((x.kz | x.ko) == maskw(x.w)) return V(x.ko, x.w);
  V v; v.t = t; v.w = x.w; return v; }
static V bin(u8 op, unsigned w, V a, V b) { T ta = TM.asT(a), tb = TM.asT(b); return fin(TM.mk(op, w, 0, ta, tb, 0, 0)); }
static V FT(T t) { return TM.fromT(t); }
V var(const std::string& name, unsigned w) {
  std::string key = name + "/" + std::to_string(w); auto it = TM.varByName.find(key); if (it != TM.varByName.end()) return FT(it->second);
  TM.varNames.push_back(name); T t = TM.mk(O_VAR, w, 0, 0, 0, 0, TM.varNames.size() - 1); TM.varTerm.push_back(t); TM.varByName[key] = t; return FT(t); }

#ifdef CHECKW
#define CW(a,b) do { if ((a).w != (b).w) { fprintf(stderr, "width mismatch %d %d in %s\n", (a).w, (b).w, __func__); abort(); } } while (0)
#else
#define CW(a,b) do { if ((a).w != (b).w) throw std::runtime_error(std::string("width mismatch in ") + __func__); } while (0)
#endif

V vadd(V a, V b) {
  CW(a, b); unsigned w = a.w;
  if (a.conc() && b.conc()) return V(a.c + b.c, w);
  if (a.conc()) std::swap(a, b);
  if (b.conc()) {
    if (b.c == 0) return a;
    const Node x = N(a.t);
    if (x.op == O_ADD && N(x.b).op == O_CONST) return vadd(FT(x.a), V(N(x.b).val + b.c, w));
    if (w == 1) return vxor(a, b);
    return bin(O_ADD, w, a, b); }
  { const Node x = N(a.t); if (x.op == O_ADD && N(x.b).op == O_CONST) return vadd(vadd(FT(x.a), b), FT(x.b)); }
  { const Node x = N(b.t); if (x.op == O_ADD && N(x.b).op == O_CONST) return vadd(vadd(a, FT(x.a)), FT(x.b)); }
  if (opOf(a) == O_SUB && N(a.t).b == b.t) return FT(N(a.t).a);
  if (opOf(b) == O_SUB && N(b.t).b == a.t) return FT(N(b.t).a);
  if (opOf(b) == O_SUB && N(N(b.t).a).op == O_CONST && N(N(b.t).a).val == 0) return vsub(a, FT(N(b.t).b));
  if (opOf(a) == O_SUB && N(N(a.t).a).op == O_CONST && N(N(a.t).a).val == 0) return vsub(b, FT(N(a.t).b));
  // disjoint bits -> or
  if (w == 1) return vxor(a, b);
  { u64 m = maskw(w); if (((~N(a.t).kz) & (~N(b.t).kz) & m) == 0) return vor(a, b); }
  if (a.t > b.t) std::swap(a, b);
  return bin(O_ADD, w, a, b); }
V vsub(V a, V b) {
  CW(a, b); unsigned w = a.w;
  if (b.conc()) { if (a.conc()) return V(a.c - b.c, w); return vadd(a, V(-b.c, w)); }
  if (a.t && a.t == b.t) return V(0, w);
  if (w == 1) return vxor(a, b);
  { const Node x = N(b.t); if (x.op == O_ADD && N(x.b).op == O_CONST) return vsub(vadd(a, V(-N(x.b).val, w)), FT(x.a)); }
  if (a.conc()) { const Node x = N(b.t); // c - (c2 - x)
    if (x.op == O_SUB && N(x.a).op == O_CONST) return vadd(FT(x.b), V(a.c - N(x.a).val, w)); 
    if (x.op == O_SUB && a.c == 0) return vsub(FT(x.b), FT(x.a));
    if (x.op == O_XOR && N(x.b).op == O_CONST && N(x.b).val == maskw(w)) return vadd(FT(x.a), V(a.c + 1, w)); // c - ~x = x + c + 1
    return bin(O_SUB, w, a, b); }
  { const Node x = N(a.t);
    if (x.op == O_ADD && N(x.b).op == O_CONST) return vadd(vsub(FT(x.a), b), FT(x.b));
    if (x.op == O_ADD) { if (x.a == b.t) return FT(x.b); if (x.b == b.t) return FT(x.a); }
  }
  { const Node x = N(b.t); if (x.op == O_SUB && N(x.a).op == O_CONST && N(x.a).val == 0) return vadd(a, FT(x.b));
    if (x.op == O_ADD) { if (x.a == a.t) return vneg(FT(x.b)); if (x.b == a.t) return vneg(FT(x.a)); } }
  return bin(O_SUB, w, a, b); }
V vneg(V a) { return vsub(V(0, a.w), a); }
V vmul(V a, V b) {
  CW(a, b); unsigned w = a.w;
  if (a.conc() && b.conc()) return V(a.c * b.c, w);
  if (a.conc()) std::swap(a, b);
  if (b.conc()) { if (b.c == 0) return b; if (b.c == 1) return a; if ((b.c & (b.c - 1)) == 0) return vshl(a, V(__builtin_ctzll(b.c), w)); return bin(O_MUL, w, a, b); }
  if (a.t > b.t) std::swap(a, b);
  return bin(O_MUL, w, a, b); }
V vudiv(V a, V b) { CW(a, b); unsigned w = a.w; if (b.conc()) { if (b.c == 1) return a; if (a.conc()) return V(b.c ? a.c / b.c : maskw(w), w); if (b.c && !(b.c & (b.c - 1))) return vlshr(a, V(__builtin_ctzll(b.c), w)); }
  return bin(O_UDIV, w, a, b); }
V vurem(V a, V b) { CW(a, b); unsigned w = a.w; if (b.conc() && a.conc()) return V(b.c ? a.c % b.c : a.c, w); if (b.conc() && b.c && !(b.c & (b.c - 1))) return vand(a, V(b.c - 1, w)); if (w > 8) return vsub(a, vmul(b, vudiv(a, b))); return bin(O_UREM, w, a, b); }
V vsdiv(V a, V b) { CW(a, b); unsigned w = a.w; if (b.conc() && a.conc()) { i64 x = sx(a.c, w), y = sx(b.c, w); if (!y) return V(x < 0 ? 1 : ~0ULL, w); if (y == -1) return V(-(u64)x, w); return V(x / y, w); } return bin(O_SDIV, w, a, b); }
V vsrem(V a, V b) { CW(a, b); unsigned w = a.w; if (b.conc() && a.conc()) { i64 x = sx(a.c, w), y = sx(b.c, w); if (!y) return a; if (y == -1) return V(0, w); return V(x % y, w); } if (w > 8) return vsub(a, vmul(b, vsdiv(a, b))); return bin(O_SREM, w, a, b); }
V vnot(V a) { return vxor(a, V(maskw(a.w), a.w)); }
// split at constant-mask boundaries: true if m is contiguous run lo..hi
static bool contiguous(u64 m, unsigned& lo, unsigned& len) { if (!m) return false; lo = __builtin_ctzll(m); u64 s = m >> lo; if (s & (s + 1)) return false; len = s == ~0ULL ? 64 : __builtin_ctzll(~s); return true; }
V vand(V a, V b) {
  CW(a, b); unsigned w = a.w; u64 m = maskw(w);
  if (a.conc() && b.conc()) return V(a.c & b.c, w);
  if (a.conc()) std::swap(a, b);
  if (b.conc()) {
    if (b.c == 0) return b; if (b.c == m) return a;
    u64 kz = N(a.t).kz; if (((~kz & m) & ~b.c) == 0) return a;
    u64 eff = b.c & ~kz; if (eff == 0) return V(0, w);
    { u64 lowm = ~b.c & m; const Node x = N(a.t); if ((lowm & (lowm + 1)) == 0 && x.op == O_ADD && N(x.b).op == O_CONST && (N(x.a).kz & lowm) == lowm) return vadd(FT(x.a), V(N(x.b).val & b.c, w)); }
    unsigned lo, len; u64 use = b.c; if (!contiguous(use, lo, len)) { if (contiguous(eff, lo, len)) use = eff; }
    if (contiguous(use, lo, len)) { V x = vext(a, lo, len); x = vzx(x, w - lo); if (lo) x = vconcat(x, V(0, lo)); return x; }
    const Node x = N(a.t); if (x.op == O_AND && N(x.b).op == O_CONST) return vand(FT(x.a), V(N(x.b).val & b.c, w));
    return bin(O_AND, w, a, b); }
  if (a.t == b.t) return a;
  if (w == 1) { if (opOf(a) == O_XOR && N(a.t).a == b.t && N(N(a.t).b).op == O_CONST) return V(0, 1); if (opOf(b) == O_XOR && N(b.t).a == a.t && N(N(b.t).b).op == O_CONST) return V(0, 1);
    if (opOf(a) == O_AND && (N(a.t).a == b.t || N(a.t).b == b.t)) return a; if (opOf(b) == O_AND && (N(b.t).a == a.t || N(b.t).b == a.t)) return b; }
  if (((~N(a.t).kz) & (~N(b.t).kz) & m) == 0) return V(0, w);
  if (opOf(a) == O_ZEXT && opOf(b) == O_ZEXT && N(N(a.t).a).w == N(N(b.t).a).w) return vzext(vand(FT(N(a.t).a), FT(N(b.t).a)), w);
  if (opOf(a) == O_SEXT && opOf(b) == O_SEXT && N(N(a.t).a).w == N(N(b.t).a).w) return vsext(vand(FT(N(a.t).a), FT(N(b.t).a)), w);
  if (a.t > b.t) std::swap(a, b);
  return bin(O_AND, w, a, b); }
V vor(V a, V b) {
  CW(a, b); unsigned w = a.w; u64 m = maskw(w);
  if (a.conc() && b.conc()) return V(a.c | b.c, w);
  if (a.conc()) std::swap(a, b);
  if (b.conc()) { if (b.c == 0) return a; if (b.c == m) return b; if ((b.c & ~N(a.t).ko) == 0) return a;
    if (opOf(a) == O_OR && N(N(a.t).b).op == O_CONST) return vor(FT(N(a.t).a), V(N(N(a.t).b).val | b.c, w));
    // zext/concat with constant in disjoint parts -> concat
    if (opOf(a) == O_ZEXT) { unsigned lw = N(N(a.t).a).w; if ((b.c & maskw(lw)) == 0) return vconcat(V(b.c >> lw, w - lw), FT(N(a.t).a)); }
    if (opOf(a) == O_CONCAT) { const Node x = N(a.t); unsigned lw = N(x.b).w; return vconcat(vor(FT(x.a), V(b.c >> lw, w - lw)), vor(FT(x.b), V(b.c, lw))); }
    return bin(O_OR, w, a, b); }
  if (a.t == b.t) return a;
  if (w == 1) { if (opOf(a) == O_XOR && N(a.t).a == b.t && N(N(a.t).b).op == O_CONST) return V(1, 1); if (opOf(b) == O_XOR && N(b.t).a == a.t && N(N(b.t).b).op == O_CONST) return V(1, 1);
    if (opOf(a) == O_OR && (N(a.t).a == b.t || N(a.t).b == b.t)) return a; if (opOf(b) == O_OR && (N(b.t).a == a.t || N(b.t).b == a.t)) return b; }
  // concat structure: a = hi:0 , b = 0:lo
  { auto tryc = [&](V p, V q, V& r) -> bool { if (opOf(p) != O_CONCAT) return false; const Node x = N(p.t); unsigned lw = N(x.b).w;
      u64 kzq = N(q.t).kz; if (N(x.b).op == O_CONST && N(x.b).val == 0 && ((~kzq & m) >> lw) == 0) { r = vconcat(FT(x.a), vext(q, 0, lw)); return true; }
      if (opOf(q) == O_CONCAT && N(N(q.t).b).w == lw) { r = vconcat(vor(FT(x.a), FT(N(q.t).a)), vor(FT(x.b), FT(N(q.t).b))); return true; }
      if (opOf(q) == O_ZEXT && N(N(q.t).a).w == lw) { r = vconcat(FT(x.a), vor(FT(x.b), FT(N(q.t).a))); return true; }
      if (opOf(q) == O_ZEXT || opOf(q) == O_CONCAT) { // split q at lw when its low/high part is separable
        if (((~kzq & m) & maskw(lw)) == 0) { r = vconcat(vor(FT(x.a), vext(q, lw, w - lw)), FT(x.b)); return true; }
        if (((~kzq & m) >> lw) == 0) { r = vconcat(FT(x.a), vor(FT(x.b), vext(q, 0, lw))); return true; } }
      return false; };
    V r; if (tryc(a, b, r)) return r; if (tryc(b, a, r)) return r; }
  if (opOf(a) == O_ZEXT && opOf(b) == O_ZEXT && N(N(a.t).a).w == N(N(b.t).a).w) return vzext(vor(FT(N(a.t).a), FT(N(b.t).a)), w);
  if (opOf(a) == O_SEXT && opOf(b) == O_SEXT && N(N(a.t).a).w == N(N(b.t).a).w) return vsext(vor(FT(N(a.t).a), FT(N(b.t).a)), w);
  if (a.t > b.t) std::swap(a, b);
  return bin(O_OR, w, a, b); }
V vxor(V a, V b) {
  CW(a, b); unsigned w = a.w;
  if (a.conc() && b.conc()) return V(a.c ^ b.c, w);
  if (a.conc()) std::swap(a, b);
  if (b.conc()) { if (b.c == 0) return a; const Node x = N(a.t); if (x.op == O_XOR && N(x.b).op == O_CONST) return vxor(FT(x.a), V(N(x.b).val ^ b.c, w));
    if (w == 1) { // negated comparisons
      if (x.op == O_ULT) return vule(FT(x.b), FT(x.a)); if (x.op == O_ULE) return vult(FT(x.b), FT(x.a));
      if (x.op == O_SLT) return vsle(FT(x.b), FT(x.a)); if (x.op == O_SLE) return vslt(FT(x.b), FT(x.a)); }
    if (b.c == maskw(w)) { if (x.op == O_SUB && N(x.a).op == O_CONST) return vadd(FT(x.b), V(~N(x.a).val, w)); // ~(c-x) = x - c - 1 = x + ~c
      if (x.op == O_ADD && N(x.b).op == O_CONST) return vsub(V(~N(x.b).val, w), FT(x.a)); 
      if (x.op == O_SEXT) return vsext(vnot(FT(x.a)), w); }
    return bin(O_XOR, w, a, b); }
  if (a.t == b.t) return V(0, w);
  { const Node x = N(a.t); if (x.op == O_XOR && N(x.b).op == O_CONST) return vxor(vxor(FT(x.a), b), FT(x.b)); }
  { const Node x = N(b.t); if (x.op == O_XOR && N(x.b).op == O_CONST) return vxor(vxor(a, FT(x.a)), FT(x.b)); }
  { const Node x = N(a.t); if (x.op == O_XOR) { if (x.a == b.t) return FT(x.b); if (x.b == b.t) return FT(x.a); } }
  { const Node x = N(b.t); if (x.op == O_XOR) { if (x.a == a.t) return FT(x.b); if (x.b == a.t) return FT(x.a); } }
  if (opOf(a) == O_ZEXT && opOf(b) == O_ZEXT && N(N(a.t).a).w == N(N(b.t).a).w) return vzext(vxor(FT(N(a.t).a), FT(N(b.t).a)), w);
  if (opOf(a) == O_SEXT && opOf(b) == O_SEXT && N(N(a.t).a).w == N(N(b.t).a).w) return vsext(vxor(FT(N(a.t).a), FT(N(b.t).a)), w);
  if (a.t > b.t) std::swap(a, b);
  return bin(O_XOR, w, a, b); }
V vshl(V a, V b) { CW(a, b); unsigned w = a.w;
  if (b.conc()) { if (b.c >= w) return V(0, w); if (b.c == 0) return a; if (a.conc()) return V(a.c << b.c, w); return vconcat(vext(a, 0, w - b.c), V(0, b.c)); }
  if (a.is(0)) return a;
  return bin(O_SHL, w, a, b); }
V vlshr(V a, V b) { CW(a, b); unsigned w = a.w;
  if (b.conc()) { if (b.c >= w) return V(0, w); if (b.c == 0) return a; if (a.conc()) return V(a.c >> b.c, w); return vzext(vext(a, b.c, w - b.c), w); }
  if (a.is(0)) return a;
  return bin(O_LSHR, w, a, b); }
V vashr(V a, V b) { CW(a, b); unsigned w = a.w;
  if (b.conc()) { u64 s = b.c >= w ? w - 1 : b.c; if (s == 0) return a; if (a.conc()) return V(sx(a.c, w) >> s, w); return vsext(vext(a, s, w - s), w); }
  if (a.is(0)) return a;
  return bin(O_ASHR, w, a, b); }
V vite(V c, V a, V b) {
  CW(a, b); if (c.w != 1) throw std::runtime_error("ite cond width"); unsigned w = a.w;
  if (c.conc()) return c.c ? a : b;
  if (a.t == b.t && a.c == b.c) return a;
  if (w == 1) { if (a.conc() && b.conc()) return a.c ? c : vnot(c); if (a.conc()) return a.c ? vor(c, b) : vand(vnot(c), b); if (b.conc()) return b.c ? vor(vnot(c), a) : vand(c, a); }
  { const Node x = N(c.t); if (x.op == O_XOR && N(x.b).op == O_CONST) return vite(FT(x.a), b, a); }
  if (opOf(a) == O_ITE && N(a.t).a == c.t) return vite(c, FT(N(a.t).b), b);
  if (opOf(b) == O_ITE && N(b.t).a == c.t) return vite(c, a, FT(N(b.t).c));
  if (w > 1 && a.conc() && b.conc() && b.c == 0 && a.c == 1) return vzext(c, w);
  if (w > 1 && a.conc() && b.conc() && a.c == 0 && b.c == 1) return vzext(vnot(c), w);
  if (w > 1 && a.conc() && b.conc() && b.c == 0 && a.c == maskw(w)) return vsext(c, w);
  T t = TM.mk(O_ITE, w, 0, TM.asT(c), TM.asT(a), TM.asT(b), 0); return fin(t); }
V vext(V a, unsigned lo, unsigned w) {
  if (lo + w > a.w || !w) throw std::runtime_error("extract range");
  if (lo == 0 && w == a.w) return a;
  if (a.conc()) return V(a.c >> lo, w);
  const Node x = N(a.t);
  { u64 m = maskw(w); u64 kz = (x.kz >> lo) & m, ko = (x.ko >> lo) & m; if ((kz | ko) == m) return V(ko, w); }
  switch (x.op) {
  case O_EXTRACT: return vext(FT(x.a), lo + x.val, w);
  case O_CONCAT: { unsigned lw = N(x.b).w; if (lo + w <= lw) return vext(FT(x.b), lo, w); if (lo >= lw) return vext(FT(x.a), lo - lw, w); return vconcat(vext(FT(x.a), 0, lo + w - lw), vext(FT(x.b), lo, lw - lo)); }
  case O_ZEXT: { unsigned lw = N(x.a).w; if (lo >= lw) return V(0, w); if (lo + w <= lw) return vext(FT(x.a), lo, w); return vzext(vext(FT(x.a), lo, lw - lo), w); }
  case O_SEXT: { unsigned lw = N(x.a).w; if (lo + w <= lw) return vext(FT(x.a), lo, w); if (lo >= lw) return vsxt(vext(FT(x.a), lw - 1, 1), w); return vsext(vext(FT(x.a), lo, lw - lo), w); }
  case O_AND: return vand(vext(FT(x.a), lo, w), vext(FT(x.b), lo, w));
  case O_OR: return vor(vext(FT(x.a), lo, w), vext(FT(x.b), lo, w));
  case O_XOR: return vxor(vext(FT(x.a), lo, w), vext(FT(x.b), lo, w));
  case O_ITE: return vite(FT(x.a), vext(FT(x.b), lo, w), vext(FT(x.c), lo, w));
  case O_ADD: if (lo == 0) return vadd(vext(FT(x.a), 0, w), vext(FT(x.b), 0, w)); break;
  case O_SUB: if (lo == 0) return vsub(vext(FT(x.a), 0, w), vext(FT(x.b), 0, w)); break;
  case O_MUL: if (lo == 0) return vmul(vext(FT(x.a), 0, w), vext(FT(x.b), 0, w)); break;
  case O_SHL: if (lo == 0 && N(x.b).kz && ((~N(x.b).kz & maskw(x.w)) >> w) == 0 && w >= 8 && ((~N(x.b).kz & maskw(x.w)) < w)) return vshl(vext(FT(x.a), 0, w), vext(FT(x.b), 0, w)); break;
  case O_LSHR: if (lo == 0 && opOf(FT(x.a)) == O_ZEXT && N(N(x.a).a).w <= w && (~N(x.b).kz & maskw(x.w)) <= maskw(w)) return vlshr(vext(FT(x.a), 0, w), vext(FT(x.b), 0, w)); break;
  case O_ASHR: if (lo == 0 && opOf(FT(x.a)) == O_SEXT && N(N(x.a).a).w <= w && (~N(x.b).kz & maskw(x.w)) <= maskw(w)) return vashr(vext(FT(x.a), 0, w), vext(FT(x.b), 0, w)); break;
  default: break; }
  return fin(TM.mk(O_EXTRACT, w, 0, a.t, 0, 0, lo)); }
V vconcat(V hi, V lo) {
  unsigned w = hi.w + lo.w; if (w > 64) throw std::runtime_error("concat too wide");
  if (hi.conc() && lo.conc()) return V(hi.c << lo.w | lo.c, w);
  if (hi.is(0)) return vzext(lo, w);
  auto sameExt = [&](V h, V l, V& r) -> bool { // adjacent slices of the same term
    if (h.conc() || l.conc()) return false;
    T hb = h.t, lb = l.t; unsigned hl = 0, ll = 0; if (N(hb).op == O_EXTRACT) { hl = N(hb).val; hb = N(hb).a; } if (N(lb).op == O_EXTRACT) { ll = N(lb).val; lb = N(lb).a; }
    if (hb == lb && hl == ll + l.w) { r = vext(FT(hb), ll, h.w + l.w); return true; } return false; };
  V r; if (sameExt(hi, lo, r)) return r;
  if (opOf(lo) == O_CONCAT) { const Node x = N(lo.t); V lh = FT(x.a); if ((hi.conc() && lh.conc()) || sameExt(hi, lh, r)) return vconcat(vconcat(hi, lh), FT(x.b)); }
  if (opOf(hi) == O_CONCAT) { const Node x = N(hi.t); // right-assoc normal form: (a:b):c -> a:(b:c)
    return vconcat(FT(x.a), vconcat(FT(x.b), lo)); }
  if (opOf(hi) == O_ZEXT) { unsigned lw = N(N(hi.t).a).w; return vzext(vconcat(FT(N(hi.t).a), lo), w); (void)lw; }
  if (opOf(lo) == O_ZEXT && hi.conc()) { unsigned lw = N(N(lo.t).a).w; return vconcat(V(hi.c << (lo.w - lw), w - lw), FT(N(lo.t).a)); }
  // sign extension pattern: concat of copies of the sign bit
  if (hi.t && lo.t) { const Node x = N(hi.t); if (x.op == O_SEXT && N(x.a).w == 1 && FT(x.a).t == vext(lo, lo.w - 1, 1).t) return vsext(lo, w);
    if (hi.w == 1 && hi.t == vext(lo, lo.w - 1, 1).t) return vsext(lo, w); 
    if (x.op == O_SEXT) { V rr; if (sameExt(FT(x.a), lo, rr)) return vsext(rr, w); if (opOf(lo) == O_CONCAT && sameExt(FT(x.a), FT(N(lo.t).a), rr)) return vsext(vconcat(rr, FT(N(lo.t).b)), w); } }
  return fin(TM.mk(O_CONCAT, w, 0, TM.asT(hi), TM.asT(lo), 0, 0)); }
V vzext(V a, unsigned w) { if (a.w == w) return a; if (a.w > w) throw std::runtime_error("zext narrower"); if (a.conc()) return V(a.c, w); if (opOf(a) == O_ZEXT) return vzext(FT(N(a.t).a), w); return fin(TM.mk(O_ZEXT, w, 0, a.t, 0, 0, 0)); }
V vsext(V a, unsigned w) { if (a.w == w) return a; if (a.w > w) throw std::runtime_error("sext narrower"); if (a.conc()) return V(sx(a.c, a.w), w); u64 s = 1ULL << (a.w - 1);
  if (N(a.t).kz & s) return vzext(a, w); if (opOf(a) == O_SEXT) return vsext(FT(N(a.t).a), w);
  if (N(a.t).ko & s) return vconcat(V(~0ULL, w - a.w), a);
  if (opOf(a) == O_CONCAT && N(N(a.t).b).op == O_CONST) { const Node x = N(a.t); return vconcat(vsext(FT(x.a), w - N(x.b).w), FT(x.b)); }
  return fin(TM.mk(O_SEXT, w, 0, a.t, 0, 0, 0)); }
static void rng(const V& v, u64& lo, u64& hi) { u64 kz, ko; kbits(v, kz, ko); lo = ko; hi = ~kz & maskw(v.w); }
static void srng(const V& v, i64& lo, i64& hi) { u64 kz, ko; kbits(v, kz, ko); u64 s = 1ULL << (v.w - 1), m = maskw(v.w); u64 l = ko, h = ~kz & m; if (!((kz | ko) & s)) { l = (ko | s); h = (~kz & m) & ~s; } lo = sx(l, v.w); hi = sx(h, v.w);
  if (v.t && N(v.t).op == O_SEXT) { unsigned lw = N(N(v.t).a).w; i64 L = -(1LL << (lw - 1)), H = (1LL << (lw - 1)) - 1; if (lo < L) lo = L; if (hi > H) hi = H; } }
static void linCollect(T t, int sg, std::map<T,int>& m, u64& k, int& n, int d) {
  const Node x = TM.n[t]; if (d < 8 && n < 24) {
    if (x.op == O_ADD) { linCollect(x.a, sg, m, k, n, d + 1); linCollect(x.b, sg, m, k, n, d + 1); return; }
    if (x.op == O_SUB) { linCollect(x.a, sg, m, k, n, d + 1); linCollect(x.b, -sg, m, k, n, d + 1); return; } }
  if (x.op == O_CONST) { k += sg > 0 ? x.val : -x.val; return; }
  m[t] += sg; n++; }
// cancel common summands of both sides of an equation
static bool linEq(V a, V b, V& l, V& r) {
  std::map<T,int> m; u64 k = 0; int n = 0; linCollect(a.t, 1, m, k, n, 0); linCollect(b.t, -1, m, k, n, 0);
  int left = 0; for (auto& x : m) left += x.second < 0 ? -x.second : x.second; if (left >= n) return false;
  unsigned w = a.w; l = V(0, w); r = V(0, w); for (auto& x : m) { V t = TM.fromT(x.first); for (int i = 0; i < x.second; i++) l = vadd(l, t); for (int i = 0; i > x.second; i--) r = vadd(r, t); }
  r = vadd(r, V(-k, w)); return true; }
std::function<bool(V, V, V&)> veqHook;
V veq(V a, V b) { if (veqHook && a.w >= 16 && !(a.conc() && b.conc())) { V r; if (veqHook(a, b, r)) return r; }
  CW(a, b); unsigned w = a.w; u64 m = maskw(w);
  if (a.conc() && b.conc()) return V(a.c == b.c, 1);
  if (a.t && a.t == b.t) return V(1, 1);
  if (a.conc()) std::swap(a, b);
  { u64 az, ao, bz, bo; kbits(a, az, ao); kbits(b, bz, bo); if ((az & bo) | (ao & bz)) return V(0, 1); }
  if (b.conc()) {
    if (w == 1) return b.c ? a : vnot(a);
    const Node x = N(a.t);
    switch (x.op) {
    case O_ADD: if (N(x.b).op == O_CONST) return veq(FT(x.a), V(b.c - N(x.b).val, w)); break;
    case O_SUB: if (b.c == 0) return veq(FT(x.a), FT(x.b)); if (N(x.a).op == O_CONST) return veq(FT(x.b), V(N(x.a).val - b.c, w)); break;
    case O_XOR: if (N(x.b).op == O_CONST) return veq(FT(x.a), V(b.c ^ N(x.b).val, w)); if (b.c == 0) return veq(FT(x.a), FT(x.b)); break;
    case O_ZEXT: return veq(FT(x.a), V(b.c, N(x.a).w)); // high bits checked by known bits
    case O_SEXT: { unsigned lw = N(x.a).w; if ((u64)(sx(b.c & maskw(lw), lw)) % (w == 64 ? 0xffffffffffffffffULL : (1ULL << w)) != b.c && ((u64)sx(b.c & maskw(lw), lw) & m) != b.c) return V(0, 1); return veq(FT(x.a), V(b.c, lw)); }
    case O_CONCAT: { unsigned lw = N(x.b).w; return vand(veq(FT(x.a), V(b.c >> lw, w - lw)), veq(FT(x.b), V(b.c, lw))); }
    case O_ITE: if (N(x.b).op == O_CONST && N(x.c).op == O_CONST) { bool e1 = N(x.b).val == b.c, e2 = N(x.c).val == b.c; if (e1 && e2) return V(1, 1); if (e1) return FT(x.a); if (e2) return vnot(FT(x.a)); return V(0, 1); }
      if (N(x.b).op == O_CONST || N(x.c).op == O_CONST) return vite(FT(x.a), veq(FT(x.b), b), veq(FT(x.c), b));
      break;
    case O_OR: if (b.c == 0) return vand(veq(FT(x.a), V(0, w)), veq(FT(x.b), V(0, w))); break;
    default: break; }
    return bin(O_EQ, 1, a, b); }
  if (opOf(a) == O_ADD || opOf(a) == O_SUB || opOf(b) == O_ADD || opOf(b) == O_SUB) { V l, r; if (linEq(a, b, l, r)) return veq(l, r); }
  { u8 oa = opOf(a), ob = opOf(b);
    if ((oa == O_ZEXT || oa == O_SEXT) && oa == ob && N(N(a.t).a).w == N(N(b.t).a).w) return veq(FT(N(a.t).a), FT(N(b.t).a));
    if (oa == O_CONCAT && ob == O_CONCAT && N(N(a.t).b).w == N(N(b.t).b).w) return vand(veq(FT(N(a.t).a), FT(N(b.t).a)), veq(FT(N(a.t).b), FT(N(b.t).b)));
    if (oa == O_ADD && ob == O_ADD && N(N(a.t).b).op == O_CONST && N(N(b.t).b).op == O_CONST) { u64 d = N(N(a.t).b).val - N(N(b.t).b).val; if (N(a.t).a == N(b.t).a) return V((d & m) == 0, 1); return veq(vadd(FT(N(a.t).a), V(d, w)), FT(N(b.t).a)); }
    if (oa == O_ADD && N(N(a.t).b).op == O_CONST && N(a.t).a == b.t) return V(0, 1);
    if (ob == O_ADD && N(N(b.t).b).op == O_CONST && N(b.t).a == a.t) return V(0, 1);
  }
  if (w == 1) return vnot(vxor(a, b));
  if (a.t > b.t) std::swap(a, b);
  return bin(O_EQ, 1, a, b); }
V vult(V a, V b) {
  CW(a, b); if (a.conc() && b.conc()) return V(a.c < b.c, 1); if (a.t && a.t == b.t) return V(0, 1);
  u64 al, ah, bl, bh; rng(a, al, ah); rng(b, bl, bh); if (ah < bl) return V(1, 1); if (al >= bh) return V(0, 1);
  if (b.is(1)) return veq(a, V(0, a.w));
  if (a.is(0)) return vne(b, V(0, a.w));
  if (a.w == 1) return vand(vnot(a), b);
  if (a.t && b.t && opOf(a) == opOf(b) && (opOf(a) == O_ZEXT || opOf(a) == O_SEXT) && N(N(a.t).a).w == N(N(b.t).a).w) return vult(FT(N(a.t).a), FT(N(b.t).a));
  if (opOf(a) == O_ZEXT && b.conc()) { unsigned lw = N(N(a.t).a).w; return vult(FT(N(a.t).a), V(b.c, lw)); }
  if (opOf(b) == O_ZEXT && a.conc()) { unsigned lw = N(N(b.t).a).w; return vult(V(a.c, lw), FT(N(b.t).a)); }
  return bin(O_ULT, 1, a, b); }
V vule(V a, V b) {
  CW(a, b); if (a.conc() && b.conc()) return V(a.c <= b.c, 1); if (a.t && a.t == b.t) return V(1, 1);
  u64 al, ah, bl, bh; rng(a, al, ah); rng(b, bl, bh); if (ah <= bl) return V(1, 1); if (al > bh) return V(0, 1);
  if (b.conc()) return vult(a, V(b.c + 1, a.w)); // b.c != max since ah>bl
  if (a.conc() && a.c) return vult(V(a.c - 1, a.w), b);
  if (b.is(0)) return veq(a, b);
  if (a.t && b.t && opOf(a) == opOf(b) && (opOf(a) == O_ZEXT || opOf(a) == O_SEXT) && N(N(a.t).a).w == N(N(b.t).a).w) return vule(FT(N(a.t).a), FT(N(b.t).a));
  return bin(O_ULE, 1, a, b); }
V vslt(V a, V b) {
  CW(a, b); if (a.conc() && b.conc()) return V(sx(a.c, a.w) < sx(b.c, a.w), 1); if (a.t && a.t == b.t) return V(0, 1);
  i64 al, ah, bl, bh; srng(a, al, ah); srng(b, bl, bh); if (ah < bl) return V(1, 1); if (al >= bh) return V(0, 1);
  if (al >= 0 && bl >= 0) return vult(a, b);
  if (b.is(0)) return vext(a, a.w - 1, 1);
  if (a.is(maskw(a.w))) return vnot(vext(b, a.w - 1, 1));
  if (a.t && b.t && opOf(a) == O_SEXT && opOf(b) == O_SEXT && N(N(a.t).a).w == N(N(b.t).a).w) return vslt(FT(N(a.t).a), FT(N(b.t).a));
  if (opOf(a) == O_SEXT && b.conc()) { unsigned lw = N(N(a.t).a).w; return vslt(FT(N(a.t).a), V(b.c, lw)); }
  if (opOf(b) == O_SEXT && a.conc()) { unsigned lw = N(N(b.t).a).w; return vslt(V(a.c, lw), FT(N(b.t).a)); }
  return bin(O_SLT, 1, a, b); }
V vsle(V a, V b) {
  CW(a, b); if (a.conc() && b.conc()) return V(sx(a.c, a.w) <= sx(b.c, a.w), 1); if (a.t && a.t == b.t) return V(1, 1);
  i64 al, ah, bl, bh; srng(a, al, ah); srng(b, bl, bh); if (ah <= bl) return V(1, 1); if (al > bh) return V(0, 1);
  if (b.conc()) return vslt(a, V(b.c + 1, a.w));
  if (a.conc()) return vslt(V(a.c - 1, a.w), b); // a.c != min since al<=.. : a const min => ah<=bl true above
  if (a.t && b.t && opOf(a) == O_SEXT && opOf(b) == O_SEXT && N(N(a.t).a).w == N(N(b.t).a).w) return vsle(FT(N(a.t).a), FT(N(b.t).a));
  return bin(O_SLE, 1, a, b); }
V vuf(u32 id, unsigned w, V a, V b, V c) {
  const UFInfo& u = TM.ufs[id];
  if (a.conc() && b.conc() && c.conc() && u.ev) return V(u.ev(a.c, b.c, c.c), w);
  T ta = TM.asT(a), tb = b.w ? TM.asT(b) : 0, tc = c.w ? TM.asT(c) : 0;
  if (u.commut && ta > tb) std::swap(ta, tb);
  return fin(TM.mk(O_UF, w, 0, ta, tb, tc, id)); }
V vrotl(V a, V cnt) {
  unsigned w = a.w; if (cnt.conc()) { unsigned s = cnt.c % w; if (!s) return a; if (a.conc()) return V(a.c << s | a.c >> (w - s), w); return vconcat(vext(a, 0, w - s), vext(a, w - s, s)); }
  // power of two widths only
  V k = vand(cnt, V(w - 1, w)); V nk = vand(vsub(V(0, w), cnt), V(w - 1, w)); return vor(vshl(a, k), vlshr(a, nk)); }
static u32 ufMHU(unsigned w) { static u32 id[65]; static bool in[65]; if (!in[w]) { in[w] = true; id[w] = TM.uf("mulhu" + std::to_string(w), true, [w](u64 a, u64 b, u64) { return (u64)(((u128)a * b) >> w) & maskw(w); }); } return id[w]; }
static u32 ufMHS(unsigned w) { static u32 id[65]; static bool in[65]; if (!in[w]) { in[w] = true; id[w] = TM.uf("mulhs" + std::to_string(w), true, [w](u64 a, u64 b, u64) { return (u64)(((i128)sx(a, w) * sx(b, w)) >> w) & maskw(w); }); } return id[w]; }
V vmulhu(V a, V b) { CW(a, b); if (a.w <= 32) { V p = vmul(vzext(a, a.w * 2), vzext(b, a.w * 2)); return vext(p, a.w, a.w); } return vuf(ufMHU(a.w), a.w, a, b); }
V vmulhs(V a, V b) { CW(a, b); if (a.w <= 32) { V p = vmul(vsext(a, a.w * 2), vsext(b, a.w * 2)); return vext(p, a.w, a.w); } return vuf(ufMHS(a.w), a.w, a, b); }
V vclz(V a) { unsigned w = a.w; if (a.conc()) return V(a.c ? __builtin_clzll(a.c) - (64 - w) : w, w); V r(w, w); for (unsigned i = 0; i < w; i++) r = vite(vbit(a, i), V(w - 1 - i, w), r); return r; }
V vctz(V a) { unsigned w = a.w; if (a.conc()) return V(a.c ? __builtin_ctzll(a.c) : w, w); V r(w, w); for (int i = w - 1; i >= 0; i--) r = vite(vbit(a, i), V(i, w), r); return r; }
V vbswap(V a) { unsigned n = a.w / 8; V r = vext(a, 0, 8); for (unsigned i = 1; i < n; i++) r = vconcat(r, vext(a, i * 8, 8)); return r; }
V vbitrev(V a) { V r = vext(a, 0, 1); for (unsigned i = 1; i < a.w; i++) r = vconcat(r, vext(a, i, 1)); return r; }
V vpopcnt(V a) { V r(0, a.w); for (unsigned i = 0; i < a.w; i++) r = vadd(r, vzext(vbit(a, i), a.w)); return r; }

static const char* onm[] = {"none","var","const","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","cat","ext","zx","sx","uf"};
std::string tstr(T t, int d) { const Node x = N(t); char b[64];
  if (x.op == O_CONST) { snprintf(b, 64, "0x%llx:%d", (unsigned long long)x.val, x.w); return b; }
  if (x.op == O_VAR) return TM.varNames[x.val];
  if (d == 0) return "...";
  std::string s = "("; s += x.op == O_UF ? TM.ufs[x.val].name : std::string(onm[x.op]) + std::to_string(x.w);
  if (x.a) s += " " + tstr(x.a, d - 1); if (x.b) s += " " + tstr(x.b, d - 1); if (x.c) s += " " + tstr(x.c, d - 1);
  if (x.op == O_EXTRACT) s += " @" + std::to_string(x.val); return s + ")"; }
std::string vstr(const V& v, int d) { if (v.conc()) { char b[64]; snprintf(b, 64, "0x%llx:%d", (unsigned long long)v.c, v.w); return b; } return tstr(v.t, d); }

u64 Model::eval(T t0) {
  { const Node& x = N(t0); if (x.op == O_CONST) return x.val; auto it = memo.find(t0); if (it != memo.end()) return it->second; }
  std::vector<T> st; st.push_back(t0);
  auto ready = [&](T t, u64& v) -> bool { if (!t) { v = 0; return true; } const Node& x = N(t); if (x.op == O_CONST) { v = x.val; return true; } auto it = memo.find(t); if (it == memo.end()) return false; v = it->second; return true; };
  while (!st.empty()) {
    T t = st.back(); const Node x = N(t); if (memo.count(t)) { st.pop_back(); continue; }
    u64 a = 0, b = 0, c = 0; bool ok = true;
    if (x.op == O_VAR) { auto it = vals.find(t); u64 v; if (it != vals.end()) v = it->second; else { v = defval; if (randomize) { v = rnd(); } v &= maskw(x.w); vals[t] = v; } memo[t] = v; st.pop_back(); continue; }
    if (x.a && !ready(x.a, a)) { st.push_back(x.a); ok = false; }
    if (x.b && !ready(x.b, b)) { st.push_back(x.b); ok = false; }
    if (x.c && !ready(x.c, c)) { st.push_back(x.c); ok = false; }
    if (!ok) continue;
    u64 m = maskw(x.w), r = 0; unsigned wa = x.a ? N(x.a).w : 0;
    switch (x.op) {
    case O_CONST: r = x.val; break;
    case O_ADD: r = a + b; break; case O_SUB: r = a - b; break; case O_MUL: r = a * b; break;
    case O_UDIV: r = b ? a / b : m; break; case O_UREM: r = b ? a % b : a; break;
    case O_SDIV: r = vsdiv(V(a, x.w), V(b, x.w)).c; break; case O_SREM: r = vsrem(V(a, x.w), V(b, x.w)).c; break;
    case O_AND: r = a & b; break; case O_OR: r = a | b; break; case O_XOR: r = a ^ b; break;
    case O_SHL: r = b >= x.w ? 0 : a << b; break; case O_LSHR: r = b >= x.w ? 0 : a >> b; break;
    case O_ASHR: r = sx(a, x.w) >> (b >= x.w ? x.w - 1 : b); break;
    case O_EQ: r = a == b; break; case O_ULT: r = a < b; break; case O_ULE: r = a <= b; break;
    case O_SLT: r = sx(a, wa) < sx(b, wa); break; case O_SLE: r = sx(a, wa) <= sx(b, wa); break;
    case O_ITE: r = a ? b : c; break; case O_CONCAT: r = a << N(x.b).w | b; break;
    case O_EXTRACT: r = a >> x.val; break; case O_ZEXT: r = a; break; case O_SEXT: r = sx(a, wa); break;
    case O_UF: { const UFInfo& u = TM.ufs[x.val]; if (u.ev) { r = u.ev(a, b, c); break; } if (exact && u.ev2) { r = u.ev2(a, b, c); break; }
      std::vector<u64> key{x.val, a, b, c}; auto it = ufs.find(key); if (it != ufs.end()) r = it->second; else { r = defval; if (ufElse.count(x.val)) r = ufElse[x.val]; else if (randomize) { r = rnd(); } r &= m; ufs[key] = r; } break; }
    default: throw std::runtime_error("eval op"); }
    memo[t] = r & m; st.pop_back(); }
  return memo[t0]; }

V vrebuild(T t0, std::unordered_map<T,V>& memo) {
  std::vector<T> st{t0};
  while (!st.empty()) { T t = st.back(); if (memo.count(t)) { st.pop_back(); continue; } const Node x = N(t); bool ok = true;
    for (T k : {x.a, x.b, x.c}) if (k && !memo.count(k)) { st.push_back(k); ok = false; } if (!ok) continue; st.pop_back();
    V a, b, c, r; if (x.a) a = memo[x.a]; if (x.b) b = memo[x.b]; if (x.c) c = memo[x.c];
    switch (x.op) { case O_CONST: case O_VAR: r = FT(t); break;
    case O_ADD: r = vadd(a, b); break; case O_SUB: r = vsub(a, b); break; case O_MUL: r = vmul(a, b); break; case O_UDIV: r = vudiv(a, b); break; case O_SDIV: r = vsdiv(a, b); break; case O_UREM: r = vurem(a, b); break; case O_SREM: r = vsrem(a, b); break;
    case O_AND: r = vand(a, b); break; case O_OR: r = vor(a, b); break; case O_XOR: r = vxor(a, b); break; case O_SHL: r = vshl(a, b); break; case O_LSHR: r = vlshr(a, b); break; case O_ASHR: r = vashr(a, b); break;
    case O_EQ: r = veq(a, b); break; case O_ULT: r = vult(a, b); break; case O_ULE: r = vule(a, b); break; case O_SLT: r = vslt(a, b); break; case O_SLE: r = vsle(a, b); break; case O_ITE: r = vite(a, b, c); break;
    case O_CONCAT: r = vconcat(a, b); break; case O_EXTRACT: r = vext(a, x.val, x.w); break; case O_ZEXT: r = vzext(a, x.w); break; case O_SEXT: r = vsext(a, x.w); break; case O_UF: r = vuf(x.val, x.w, a, b, c); break; default: r = FT(t); }
    memo[t] = r; }
  return memo[t0]; }
