#include "isa.h"
#include "lir.h"
static unsigned ebits(unsigned w) { return w == 64 ? 11 : 8; }
V fIsNaN(V a) { unsigned w = a.w, e = ebits(w), m = w - 1 - e; return vand(veq(vext(a, m, e), V(maskw(e), e)), vne(vext(a, 0, m), V(0, m))); }
static V bothZero(V a, V b) { unsigned w = a.w; return vand(veq(vext(a, 0, w - 1), V(0, w - 1)), veq(vext(b, 0, w - 1), V(0, w - 1))); }
V fcmpEq(V a, V b) { if (!a.conc() && a.t > b.t) std::swap(a, b); return vand(vand(vnot(fIsNaN(a)), vnot(fIsNaN(b))), vor(veq(a, b), bothZero(a, b))); }
V fcmpLt(V a, V b) { unsigned w = a.w; V sa = vbit(a, w - 1), sb = vbit(b, w - 1); V ma = vext(a, 0, w - 1), mb = vext(b, 0, w - 1);
  V lt = vite(sa, vite(sb, vult(mb, ma), vnot(bothZero(a, b))), vite(sb, V(0, 1), vult(ma, mb)));
  return vand(vand(vnot(fIsNaN(a)), vnot(fIsNaN(b))), lt); }
V fcvtToInt(V a, unsigned w, bool sgn) { return fpop(std::string("ftoi") + (sgn ? "s" : "u"), w, a); }
// Conversions from integers are expressed with the signed 64-bit one. Unsigned words: halves with a sticky bit, doubled
V fcvtFromInt(V a, unsigned fw, bool sgn) {
  if (sgn || a.w < 64) return fpop("itofs", fw, sgn ? vsxt(a, 64) : vzx(a, 64));
  V y = fpop("itofs", fw, vor(vlshr(a, V(1, 64)), vand(a, V(1, 64)))); return vite(vbit(a, 63), fpop("fadd", fw, y, y, V(), true), fpop("itofs", fw, a)); }
// Meaning of the uninterpreted operations, used to evaluate replays only
#include <cmath>
#include <cstring>
void fpMeaning(UFInfo& u, unsigned w, unsigned aw) {
  auto D = [](u64 x) { double d; memcpy(&d, &x, 8); return d; }; auto S = [](u64 x) { float f; u32 y = (u32)x; memcpy(&f, &y, 4); return f; };
  auto UD = [](double d) { u64 x; memcpy(&x, &d, 8); return x; }; auto US = [](float f) { u32 x; memcpy(&x, &f, 4); return (u64)x; };
  std::string n = u.name.substr(0, u.name.find('.', u.name[1] == 'c' ? 6 : 0));
  if (n == "fadd" || n == "fsub" || n == "fmul" || n == "fdiv") { char o = n[1] == 'a' ? '+' : n[1] == 's' ? '-' : n[1] == 'm' ? '*' : '/';
    u.ev2 = [=](u64 a, u64 b, u64) -> u64 { if (AI.name[0] != 'x') { bool na = w == 64 ? std::isnan(D(a)) || std::isnan(D(b)) : std::isnan(S(a)) || std::isnan(S(b)); double r; auto g = [&](auto x, auto y) { return o == '+' ? x + y : o == '-' ? x - y : o == '*' ? x * y : x / y; }; r = w == 64 ? g(D(a), D(b)) : g(S(a), S(b)); if (std::isnan(r) && (!na || AI.name[0] == 'r')) return w == 64 ? 0x7ff8000000000000ULL : 0x7fc00000ULL; /* the default NaN of the target */ } auto f = [&](auto x, auto y) { return o == '+' ? x + y : o == '-' ? x - y : o == '*' ? x * y : x / y; }; return w == 64 ? UD(f(D(a), D(b))) : US(f(S(a), S(b))); }; }
  else if (n == "fcvt.d.s") u.ev2 = [=](u64 a, u64, u64) { return UD(S(a)); };
  else if (n == "fcvt.s.d") u.ev2 = [=](u64 a, u64, u64) { return US((float)D(a)); };
  else if (n == "itofs") u.ev2 = [=](u64 a, u64, u64) { return w == 64 ? UD((double)(i64)a) : US((float)(i64)a); };
  else if (n == "ftois" || n == "ftoiu") u.ev2 = [=](u64 a, u64, u64) -> u64 { double d = aw == 64 ? D(a) : S(a); if (!(std::fabs(d) < (w == 64 ? 9.2e18 : 2147483648.0))) return 1ULL << (w - 1); return (u64)(i64)d & maskw(w); }; }

V fInRange(V a, unsigned iw) { // |a| < 2^(iw-1), NaN excluded: exponent test
  unsigned w = a.w, e = ebits(w), m = w - 1 - e; u64 bias = (1ULL << (e - 1)) - 1; V ex = vext(a, m, e); return vult(ex, V(bias + iw - 1, e)); }
