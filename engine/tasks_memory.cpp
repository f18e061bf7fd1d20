// C09 executable allocators and C13 stack utility: the real allocator code runs with symbolic sizes on a memory whose
// addresses may be symbolic; the operating system calls are models that check what they are given.
#include "tasks.h"
#include <algorithm>
namespace {
struct Rg { V base, size; bool live = true, heap = false; int store, prot; std::vector<std::array<V,2>> pr; std::vector<int> pp; };   // pr/pp: later permission changes, newest last
struct Ent { int store; V off; unsigned n; V val; bool range; V len; };
struct Blk { V ptr, size, off, delta; int rg; bool live; V x; };
// linear form over atoms with known ranges: decides most order questions without the solver
struct Lin { bool ok = true; i64 c = 0; std::map<T,i64> m; };
struct LinCtx { std::unordered_map<T,std::pair<i64,i64>> range; std::unordered_map<T,Lin> memo; std::unordered_map<T,i64> facts;
  std::function<bool(V)> prov;
  void fact(V v, u64 k) { if (v.conc()) return; facts[v.t] = (i64)k; const Node x = TM.n[v.t]; if (x.op == O_CONCAT) fact(TM.fromT(x.a), k >> TM.n[x.b].w); if (x.op == O_ZEXT) fact(TM.fromT(x.a), k); reset(); }
  static void addTo(Lin& a, const Lin& b, i64 k) { if (!b.ok) a.ok = false; a.c += b.c * k; for (auto& x : b.m) { i64& q = a.m[x.first]; q += x.second * k; if (!q) a.m.erase(x.first); } }
  bool interval(const Lin& l, i64& lo, i64& hi) { if (!l.ok) return false; i128 a = l.c, b = l.c; for (auto& x : l.m) { i64 p, q; auto it = range.find(x.first); if (it != range.end()) { p = it->second.first; q = it->second.second; } else { u64 mx = ~TM.n[x.first].kz & maskw(TM.n[x.first].w); if (mx >> 48) return false; p = 0; q = (i64)mx; } if (x.second > 0) { a += (i128)x.second * p; b += (i128)x.second * q; } else { a += (i128)x.second * q; b += (i128)x.second * p; } } if (a < -((i128)1 << 60) || b > ((i128)1 << 60)) return false; lo = (i64)a; hi = (i64)b; return true; }
  Lin of(const V& v) { Lin l; if (v.conc()) { l.c = sx(v.c, v.w); return l; } auto it = memo.find(v.t); if (it != memo.end()) return it->second; { auto f = facts.find(v.t); if (f != facts.end()) { l.c = f->second; return l; } } const Node x = TM.n[v.t]; auto S = [&](T t) { return of(TM.fromT(t)); }; i64 lo, hi, lim = x.w >= 60 ? (1LL << 60) : (1LL << (x.w - 1)); Lin atom; atom.m[v.t] = 1;
    switch (x.op) { case O_ADD: l = S(x.a); addTo(l, S(x.b), 1); break; case O_SUB: l = S(x.a); addTo(l, S(x.b), -1); break;
      case O_CONCAT: { unsigned k = TM.n[x.b].w; const Node h = TM.n[x.a];
        if (k < 50 && !facts.count(x.a) && h.op == O_EXTRACT && h.val == k && (TM.n[h.a].w == x.w || fits(h.a, x.w))) { V X = TM.fromT(h.a), low = vext(X, 0, k), lo2 = TM.fromT(x.b); Lin lx = S(h.a); if (low.t == lo2.t && low.c == lo2.c) { l = lx; break; } Lin a = lowBits(lx, low, k), b = of2(lo2); i64 p, q; if (a.ok && b.ok && interval(b, p, q) && p >= 0) { l = lx; addTo(l, a, -1); addTo(l, b, 1); break; } }
        Lin a = S(x.a), b = of2(TM.fromT(x.b)); i64 p, q, p2, q2; if (k < 50 && interval(a, p, q) && p >= 0 && interval(b, p2, q2) && p2 >= 0) addTo(b, a, 1LL << k), l = b; else l = atom; break; }
      case O_EXTRACT: { Lin a = S(x.a); i64 p, q; unsigned k = (unsigned)x.val; if (k < 50 && a.ok && fits(x.a, k + x.w)) { bool div = true; for (auto& y : a.m) if (y.second & ((1LL << k) - 1)) div = false; if (div) { l.c = a.c >> k; for (auto& y : a.m) l.m[y.first] = y.second >> k; break; } if (k && interval(a, p, q) && k + x.w >= 62) { if (p < 0 && prov) { bool ok; Lin nl = a; nl.m.clear(); nl.c = 0; addTo(nl, a, -1); V z = cmp(nl, false, ok); if (ok && prov(z)) p = 0; } if (p >= 0) range[v.t] = {p >> k, q >> k}; } } l = atom; break; }
      case O_ZEXT: { Lin a = S(x.a); i64 p, q; l = interval(a, p, q) && p >= 0 ? a : atom; break; }
      case O_MUL: { if (TM.n[x.b].op == O_CONST && TM.n[x.b].val < 4096) addTo(l, S(x.a), (i64)TM.n[x.b].val); else l = atom; break; }
      default: l = atom; }
    if (!interval(l, lo, hi) || hi >= lim || lo < -lim) { l = atom; if (x.w > 48 && ((~x.kz & maskw(x.w)) >> 48)) l.ok = l.ok; }
    memo[v.t] = l; return l; }
  bool fits(T t, unsigned n) { if (n >= TM.n[t].w && n < 64) return !(~TM.n[t].kz & (1ULL << (TM.n[t].w - 1))) || nonneg(t); if (n < 64 && !((~TM.n[t].kz & maskw(TM.n[t].w)) >> n)) return true; i64 p, q; Lin l = of(TM.fromT(t)); return interval(l, p, q) && p >= 0 && (n >= 62 || (q >> n) == 0); }   // 0 <= t < 2^n
  bool nonneg(T t) { i64 p, q; Lin l = of(TM.fromT(t)); return interval(l, p, q) && p >= 0; }
  Lin of2(const V& v) { if (v.conc()) { Lin l; l.c = (i64)v.c; return l; } Lin l = of(v); i64 p, q; if (!interval(l, p, q) || p < 0) { l = Lin(); l.m[v.t] = 1; if (v.w >= 50) l.ok = false; else range[v.t] = {0, (i64)maskw(v.w)}; } return l; }   // unsigned value
  Lin lowBits(const Lin& x, V low, unsigned k) { Lin r; i64 m = (1LL << k) - 1; bool div = x.ok; for (auto& y : x.m) if (y.second & m) div = false; if (div) { r.c = x.c & m; return r; } return of2(low); }
  void dbg(V c, const char* w) { static bool on = getenv("LINDBG"); if (on) fprintf(stderr, "LIN %s: %s\n", w, tstr(c.t, 9).c_str()); }
  // conditions in a canonical narrow form: sum of the positive terms <= sum of the negative terms
  std::unordered_map<T,V> nm; void reset() { nm.clear(); memo.clear(); }
  V cmp(Lin l, bool eq, bool& okay) { // l <= 0 or l == 0
    okay = true; i64 lo, hi; if (l.m.empty()) return V(eq ? l.c == 0 : l.c <= 0, 1); if (!interval(l, lo, hi)) { okay = false; return V(); } if (eq ? lo > 0 || hi < 0 : lo > 0) return V(0, 1); if (!eq && hi <= 0) return V(1, 1);
    i64 g = 0; for (auto& x : l.m) { i64 a = x.second < 0 ? -x.second : x.second; while (a) { i64 t = g % a; g = a; a = t; } } if (eq && l.c % g) return V(0, 1); if (g > 1) { for (auto& x : l.m) x.second /= g; i64 q = l.c / g; if (l.c % g > 0) q++; l.c = q; }
    i64 sp = l.c > 0 ? l.c : 0, sn = l.c < 0 ? -l.c : 0; for (auto& x : l.m) { i64 p, q; Lin o; o.m[x.first] = 1; if (!interval(o, p, q) || p < 0) { okay = false; return V(); } (x.second > 0 ? sp : sn) += (x.second < 0 ? -x.second : x.second) * q; } i64 mx = sp > sn ? sp : sn; unsigned w = 2; while (w < 62 && (mx >> w)) w++; w++; if (w > 60) { okay = false; return V(); }
    V P(l.c > 0 ? l.c : 0, w), N(l.c < 0 ? -l.c : 0, w); for (auto& x : l.m) { V a = TM.fromT(x.first); a = a.w > w ? vext(a, 0, w) : vzx(a, w); V t = vmul(a, V(x.second < 0 ? -x.second : x.second, w)); V& d = x.second > 0 ? P : N; d = vadd(d, t); }
    V r = eq ? veq(P, N) : vule(P, N); if (r.t) linOf[r.t] = {l, eq}; return r; }
  // linear arithmetic: refutes a conjunction (with a few case splits) by elimination of variables; everything it cannot refute goes to Z3
  std::unordered_map<T,std::pair<Lin,bool>> linOf;
  struct C { i64 k[12]; i64 c; };
  std::vector<T> vs; bool tooMany; int fmLeft;
  int vi(T t) { for (size_t i = 0; i < vs.size(); i++) if (vs[i] == t) return (int)i; if (vs.size() == 12) { tooMany = true; return -1; } vs.push_back(t); return (int)vs.size() - 1; }
  void push(std::vector<C>& o, const Lin& l, i64 sg, i64 add) { C q; memset(&q, 0, sizeof q); q.c = l.c * sg + add; for (auto& x : l.m) { int i = vi(x.first); if (i < 0) return; q.k[i] = x.second * sg; } o.push_back(q); }
  void conv(T t, bool pol, std::vector<C>& o, std::vector<std::pair<T,bool>>& ors) {
    auto it = linOf.find(t); if (it != linOf.end()) { const Lin& l = it->second.first; if (!it->second.second) { if (pol) push(o, l, 1, 0); else push(o, l, -1, 1); } else if (pol) { push(o, l, 1, 0); push(o, l, -1, 0); } else ors.push_back({t, pol}); return; }
    const Node& x = TM.n[t]; if (x.op == O_CONST) { if ((x.val & 1) != pol) { C q; memset(&q, 0, sizeof q); q.c = 1; o.push_back(q); } return; }
    if (x.op == O_XOR && x.w == 1) { if (TM.n[x.b].op == O_CONST && TM.n[x.b].val == 1) conv(x.a, !pol, o, ors); else if (TM.n[x.a].op == O_CONST && TM.n[x.a].val == 1) conv(x.b, !pol, o, ors); return; }
    if ((x.op == O_AND || x.op == O_OR) && x.w == 1) { if ((x.op == O_AND) == pol) { conv(x.a, pol, o, ors); conv(x.b, pol, o, ors); } else ors.push_back({t, pol}); return; }
    if (x.op == O_ITE && x.w == 1) { ors.push_back({t, pol}); return; }
    if (x.op == O_EQ || x.op == O_ULT || x.op == O_ULE) { V a = TM.fromT(x.a), b = TM.fromT(x.b); if (a.w < 12) return; Lin l = of2(a), m = of2(b); i64 p, q; if (!interval(l, p, q) || p < 0 || !interval(m, p, q) || p < 0) return; addTo(l, m, -1); if (x.op == O_ULT) l.c++; linOf[t] = {l, x.op == O_EQ}; conv(t, pol, o, ors); } }
  static bool tight(C& q, size_t n) { i64 g = 0; for (size_t i = 0; i < n; i++) { i64 a = q.k[i] < 0 ? -q.k[i] : q.k[i]; while (a) { i64 t = g % a; g = a; a = t; } } if (g > 1) { for (size_t i = 0; i < n; i++) q.k[i] /= g; i64 d = q.c / g; if (q.c % g > 0) d++; q.c = d; } return g != 0; }
  std::vector<i64> mdl; bool haveMdl = false;
  bool fm(std::vector<C> cs, bool want) { size_t n = vs.size(); std::vector<u8> left(n, 1); std::vector<std::pair<int,std::vector<C>>> el;
    for (size_t i = 0; i < cs.size();) { if (!tight(cs[i], n)) { if (cs[i].c > 0) return true; cs[i] = cs.back(); cs.pop_back(); } else i++; }
    for (size_t step = 0; step < n; step++) { int best = -1; long bc = 0; for (size_t v = 0; v < n; v++) if (left[v]) { long a = 0, b = 0; for (auto& q : cs) { if (q.k[v] > 0) a++; else if (q.k[v] < 0) b++; } long cost = a * b - a - b; if (best < 0 || cost < bc) best = (int)v, bc = cost; }
      left[best] = 0; if (want) el.push_back({best, cs}); std::vector<C> nx; for (auto& q : cs) if (!q.k[best]) nx.push_back(q);
      for (auto& a : cs) if (a.k[best] > 0) for (auto& b : cs) if (b.k[best] < 0) { C r; bool big = false; i64 x = -b.k[best], y = a.k[best]; memset(&r, 0, sizeof r); for (size_t i = 0; i < n; i++) { i128 z = (i128)a.k[i] * x + (i128)b.k[i] * y; if (z > (1LL << 50) || z < -(1LL << 50)) big = true; r.k[i] = (i64)z; } i128 z = (i128)a.c * x + (i128)b.c * y; if (z > (1LL << 58) || z < -(1LL << 58)) big = true; r.c = (i64)z; if (big) continue; if (!tight(r, n)) { if (r.c > 0) return true; continue; } 
        bool dup = false; for (auto& q : nx) if (!memcmp(q.k, r.k, sizeof q.k)) { if (r.c > q.c) q.c = r.c; dup = true; break; } if (!dup) nx.push_back(r); if (nx.size() > 400) return false; }
      cs.swap(nx); }
    if (want) { mdl.assign(n, 0); for (size_t i = el.size(); i-- > 0;) { int v = el[i].first; i64 lo = 0, hi = (1LL << 47); for (auto& q : el[i].second) if (q.k[v]) { i128 s = q.c; for (size_t j = 0; j < n; j++) if ((int)j != v) s += (i128)q.k[j] * mdl[j]; i64 k = q.k[v]; if (k > 0) { i128 z = -s; i128 b = z >= 0 ? z / k : -((-z + k - 1) / k); if (b < hi) hi = (i64)b; } else { i128 b = s >= 0 ? (s + -k - 1) / -k : -((-s) / -k); if (b > lo) lo = (i64)b; } } if (lo > hi) return false; mdl[v] = lo; } haveMdl = true; }
    return false; }
  bool refuteRec(const std::vector<C>& cs, const std::vector<std::pair<T,bool>>& ors, size_t k) {
    if (haveMdl || fmLeft-- <= 0) return false; bool leaf = k >= ors.size(); if (fm(cs, leaf && wantMdl)) return true; if (leaf) return false;
    auto part = [&](std::vector<std::pair<T,bool>> lits) { std::vector<C> c2 = cs; auto o2 = ors; std::vector<std::pair<T,bool>> more; for (auto& l : lits) conv(l.first, l.second, c2, more); o2.insert(o2.begin() + k + 1, more.begin(), more.end()); return refuteRec(c2, o2, k + 1); };
    T t = ors[k].first; bool pol = ors[k].second; auto it = linOf.find(t); if (it != linOf.end()) { std::vector<C> a = cs, b = cs; push(a, it->second.first, 1, 1); push(b, it->second.first, -1, 1); return refuteRec(a, ors, k + 1) && refuteRec(b, ors, k + 1); }
    const Node x = TM.n[t]; if (x.op == O_ITE) return part({{x.a, true}, {x.b, pol}}) && part({{x.a, false}, {x.c, pol}}); return part({{x.a, pol}}) && part({{x.b, pol}}); }
  bool wantMdl;
  int refute(const std::vector<T>& pc, T extra, Model* m, const Model* base) { vs.clear(); tooMany = false; fmLeft = 60; wantMdl = m && base; haveMdl = false; std::vector<C> cs; std::vector<std::pair<T,bool>> ors, ors2; conv(extra, true, cs, ors); if (cs.empty() && ors.empty()) return -1; for (T t : pc) conv(t, true, cs, ors2); ors.insert(ors.end(), ors2.begin(), ors2.end()); if (tooMany) return -1;
    size_t n = vs.size(); for (size_t i = 0; i < n; i++) { Lin a; a.m[vs[i]] = 1; i64 lo, hi; if (interval(a, lo, hi)) { C q; memset(&q, 0, sizeof q); q.k[i] = 1; q.c = -hi; cs.push_back(q); q.k[i] = -1; q.c = lo; cs.push_back(q); } }
    if (refuteRec(cs, ors, 0)) return tooMany ? -1 : 0;
    if (haveMdl) { Model c; c.vals = base->vals; c.ufs = base->ufs; c.ufElse = base->ufElse; c.defval = base->defval; for (size_t i = 0; i < n; i++) if (TM.n[vs[i]].op == O_VAR) c.vals[vs[i]] = (u64)mdl[i]; else if ((i64)c.eval(vs[i]) != mdl[i]) { } c.memo.clear(); if (c.eval(extra)) { bool ok = true; for (T t : pc) if (!c.eval(t)) { ok = false; break; } if (ok) { c.memo.clear(); *m = std::move(c); return 1; } } }
    return -1; }
  V norm(V c) { if (c.conc() || c.w != 1) return c; auto it = nm.find(c.t); if (it != nm.end()) return it->second; const Node x = TM.n[c.t]; V r = c; auto S = [&](T t) { return TM.fromT(t); };
    switch (x.op) { case O_AND: r = vand(norm(S(x.a)), norm(S(x.b))); break; case O_OR: r = vor(norm(S(x.a)), norm(S(x.b))); break; case O_XOR: r = vxor(norm(S(x.a)), norm(S(x.b))); break;
      case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: { V a = S(x.a), b = S(x.b); if (a.w == 1) { if (x.op == O_EQ) r = veq(norm(a), norm(b)); break; } if (a.w < 12) break; bool sg = x.op == O_SLT || x.op == O_SLE, e = x.op == O_EQ, lt = x.op == O_ULT || x.op == O_SLT; if (e && a.t && b.conc() && TM.n[a.t].op == O_EXTRACT && TM.n[a.t].val && TM.n[a.t].val < 50) { const Node y = TM.n[a.t]; unsigned k = (unsigned)y.val; Lin l = of(TM.fromT(y.a)); i64 p, q, cv = sx(b.c, b.w); bool top = k + y.w == TM.n[y.a].w; if (interval(l, p, q) && (top || fits(y.a, k + y.w)) && (b.w + k < 60 || (cv < (1LL << (59 - k)) && cv > -(1LL << (59 - k))))) { if (!top) cv = (i64)b.c; Lin l1, l2; l1.c = cv << k; addTo(l1, l, -1); l2 = l; l2.c -= ((cv + 1) << k) - 1; bool o1, o2; V z1 = cmp(l1, false, o1), z2 = cmp(l2, false, o2); if (o1 && o2) { r = vand(z1, z2); break; } } }
        Lin la = of(a), lb = of(b); i64 p, q, p2, q2; if (!interval(la, p, q) || !interval(lb, p2, q2)) { dbg(c, "interval"); break; } i64 lim = a.w >= 61 ? 1LL << 60 : 1LL << (a.w - 1); if (p <= -lim || q >= lim || p2 <= -lim || q2 >= lim) { dbg(c, "limit"); break; }
        bool ok1 = true, ok2 = true, ok3 = true; Lin d = la; addTo(d, lb, -1); if (lt) d.c++; V z = cmp(d, e, ok1); if (!ok1) { dbg(c, "cmp"); break; } if (!sg && !e && (p < 0 || p2 < 0)) { Lin na = la, nb = lb; na.c++; nb.c++; V an = cmp(na, false, ok2), bn = cmp(nb, false, ok3); if (!ok2 || !ok3) { dbg(c, "cmp"); break; } z = vite(an, vand(bn, z), vor(bn, z)); } r = z; break; }
      default: break; }
    nm[c.t] = r; if (r.t) nm[r.t] = r; return r; }
  // a <= b + k for offsets: 1 yes, 0 no, -1 unknown
  int le(V a, V b) { Lin l = of(a); addTo(l, of(b), -1); i64 lo, hi; if (l.m.empty() && l.ok) return l.c <= 0; if (!interval(l, lo, hi)) return -1; if (hi <= 0) return 1; if (lo > 0) return 0; return -1; }
  int eq(V a, V b) { Lin l = of(a); addTo(l, of(b), -1); i64 lo, hi; if (l.m.empty() && l.ok) return l.c == 0; if (!interval(l, lo, hi)) return -1; if (lo > 0 || hi < 0) return 0; return -1; } };
struct World { LinCtx lin;
  Ctx& c; Engine& E; unsigned pw; std::vector<Rg> rg; std::vector<Ent> log; std::vector<Blk> blk; std::vector<std::string> script; std::map<int,int> fdStore; std::map<int,int> fds; std::map<int,V> fdSize; int nextFd = 100, nStore = 0, fails = 0, maxFail = 1, sysk = 0, nmaps = 0, layout = 0, envLen = -1; bool inOp = false, lockNeeded = false, stackMode = false, failedInOp = false; std::set<std::string> tmpFiles; std::string why; std::vector<std::pair<u64,u64>> watch; V top; std::vector<std::pair<V,V>> adv; std::vector<V> scriptV; V K; bool haveK = false, haveTot = false; u64 aAlloc = 0, aTotal = 0; bool mapped = false; int lastMap = -1;
  World(Ctx& x) : c(x), E(x.E), pw(x.E.pw) {}
  V W(i64 v) { return V(v, pw); }
  [[noreturn]] void bad(const std::string& s) { throw PathStop{s, 1}; }
  // ---- replay script: "%" entries take values from the model
  struct L { std::string s; std::vector<V> v; }; std::vector<L> out;
  void say(const std::string& s, std::vector<V> v = {}) { out.push_back({s, v}); }
  std::string text(Model& m) { std::string s = "memworld " + std::to_string(layout) + " " + std::to_string(envLen) + "\n"; for (auto& l : out) { s += l.s; for (V x : l.v) { char b[32]; snprintf(b, 32, " %llx", (unsigned long long)m.eval(x)); s += b; } s += "\n"; } return s; }
  // ---- memory
  V idxOff(const Rg& r, V a) { return vsub(a, r.base); }
  int resolve(V a, u64 n, const char* what, V* off) {
    std::vector<int> o; for (int p = 0; p < 2; p++) for (int i = (int)rg.size() - 1; i >= 0; i--) if (rg[i].live) { bool g = E.model.eval(vult(vsub(a, rg[i].base), rg[i].size)); if (g == !p) o.push_back(i); }
    for (int i : o) { V f = idxOff(rg[i], a); if (rg[i].size.conc() && lin.le(W(0), f) == 1 && lin.le(vadd(f, W(n)), rg[i].size) == 1) { *off = f; return i; } V in = vand(vule(W(n), rg[i].size), vule(f, vsub(rg[i].size, W(n)))); if (E.branch(in)) { *off = f; return i; } }
    char b[120]; snprintf(b, 120, "%s of %llu bytes outside of the mapped memory", what, (unsigned long long)n); bad(std::string(b) + " [in " + E.curFn + "]"); }
  static V overlap(V a, V n, V b, V m) { return vnot(vor(vule(vadd(a, n), b), vule(vadd(b, m), a))); }
  bool ovl(V a, V n, V b, V m) { V an = vadd(a, n), bm = vadd(b, m); int p = lin.le(an, b), q = lin.le(bm, a); if (p == 1 || q == 1) return false; if (p == 0 && q == 0) return true; return E.branch(overlap(a, n, b, m)); }
  bool same(V a, V b) { int p = lin.eq(a, b); return p >= 0 ? p : E.branch(veq(a, b)); }
  int protAt(Rg& r, V f, unsigned n, bool any) { // permissions of [f, f+n): intersection over the pages
    int p = r.prot; for (size_t k = 0; k < r.pr.size(); k++) { V lo = r.pr[k][0], hi = r.pr[k][1]; if (E.branch(vand(vule(lo, f), vule(vadd(f, W(n)), hi)))) p = r.pp[k]; else if (ovl(lo, vsub(hi, lo), f, W(n))) p &= r.pp[k]; } (void)any; return p; }
  void userCheck(int st, V f, u64 n, const char* what) { for (auto& b : blk) if (b.live && rg[b.rg].store == st) { if (ovl(b.off, b.size, f, W(n))) bad(std::string(what) + " memory that belongs to a live block [in " + E.curFn + "]"); } }
  bool mine(const V& a) { if (!a.conc()) return true; return a.c >= 0x40000000 && !(a.c >= (1ULL << 62)); }
  bool ld(V a, unsigned n, V& r) {
    if (!mine(a)) { lockCheck(a.c); return false; }
    V f; int i = resolve(a, n, "read", &f); if (!(protAt(rg[i], f, n, false) & 1)) bad("read of memory that is not readable [in " + E.curFn + "]"); if (lockNeeded && inOp && !E.lockDepth) bad("allocator memory is read without holding the lock [in " + E.curFn + "]");
    int st = rg[i].store; if (inOp) userCheck(st, f, n, "the allocator reads");
    for (int k = (int)log.size() - 1; k >= 0; k--) { Ent& e = log[k]; if (e.store != st) continue; if (e.range) { if (ovl(e.off, e.len, f, W(n))) bad("a value is read that the allocator has not written [in " + E.curFn + "]"); continue; }
      if (e.n == n) { if (same(e.off, f)) { r = e.val; return true; } }
      if (ovl(e.off, W(e.n), f, W(n))) { if (e.n > n) { for (unsigned d = 0; d + n <= e.n; d++) if (E.branch(veq(vadd(e.off, W(d)), f))) { r = vext(e.val, 8 * (E.be ? e.n - d - n : d), 8 * n); return true; } } E.unsup("partial overlap"); } }
    r = V(0, n * 8); return true; }
  bool st(V a, V v, unsigned n) {
    if (!mine(a)) { lockCheck(a.c); return false; }
    V f; int i = resolve(a, n, "write", &f); if (!(protAt(rg[i], f, n, false) & 2)) bad("write to memory that is not writable [in " + E.curFn + "]"); if (lockNeeded && inOp && !E.lockDepth) bad("allocator memory is written without holding the lock [in " + E.curFn + "]");
    if (inOp) userCheck(rg[i].store, f, n, "the allocator overwrites"); log.push_back({rg[i].store, f, n, v, false, V()}); return true; }
  void lockCheck(u64 a) { if (!lockNeeded || !inOp || E.lockDepth) return; for (auto& w : watch) if (a >= w.first && a < w.second) bad("allocator state is accessed without holding the lock [in " + E.curFn + "]"); }
  // ---- operating system
  bool failNow(const char* what) { int k = sysk++; if (fails >= maxFail) return false; V v = var("osfail." + std::to_string(k), 1); if (!E.branch(v)) return false; fails++; failedInOp = true; lastFail = what; say(std::string("osfail ") + std::to_string(k)); return true; }
  std::string lastFail;
  V map(V n, int prot, int store) {
    n = vand(vadd(n, W(4095)), W(-4096)); if (!stackMode) { V n0 = n; n = W(E.concretize(n)); lin.fact(n0, n.c); } Rg r; r.size = n; r.prot = prot; r.store = store; int k = nmaps++;
    if (!top.w) top = W(pw == 64 ? 0x100000000000LL : 0x70000000); 
    if (layout == 1 && k) { top = vsub(top, n); r.base = top; } else if (layout == 2 && k) { r.base = vadd(rg.back().base, rg.back().size); } else r.base = layout == 1 ? top : W((pw == 64 ? 0x100000000000LL + ((i64)k << 40) : 0x48000000LL + (k << 24)));
    rg.push_back(r); mapped = true; lastMap = (int)rg.size() - 1; return r.base; }
  void pageAligned(V a, const char* what) { c.check(veq(vand(a, W(4095)), W(0)), std::string(what) + ": address is not page aligned"); }
  bool os(const std::string& nm, const std::vector<V>& A, V& r) {
    if (nm == "mmap" || nm == "mmap64") {
      V n = A[1]; int prot = (int)E.concretize(A[2]), flags = (int)E.concretize(A[3]); i64 fd = sx(E.concretize(A[4]), 32); if (A[0].t || A[0].c) bad("mmap with an address"); (void)flags;
      if (E.branch(veq(n, W(0)))) { failedInOp = true; r = W(-1); return true; }
      // the model of the machine has less than 2^46 (2^31) bytes
      if (E.branch(vult(W(pw == 64 ? 1LL << 36 : 1LL << 22), n))) { failedInOp = true; r = W(-1); return true; }
      if (failNow("mmap")) { r = W(-1); return true; }
      int store; if (fd >= 0) { if (!fds.count(fd) || !fds[fd]) bad("mmap of a file descriptor that is not open"); if (!(flags & 1)) bad("the views of the file are not shared"); store = fdStore[fd]; V fs = fdSize.count(fd) ? fdSize[fd] : W(0); c.check(vule(n, fs), "a mapping is larger than its file"); } else { store = nStore++; }
      r = map(n, prot, store); return true; }
    if (nm == "munmap") { V a = A[0], n = vand(vadd(A[1], W(4095)), W(-4096)); int k = -1; for (int p = 0; p < 2 && k < 0; p++) for (int i = (int)rg.size() - 1; i >= 0 && k < 0; i--) if (rg[i].live && (E.model.eval(veq(rg[i].base, a)) != 0) == !p) if (E.branch(veq(rg[i].base, a))) k = i; if (k < 0) bad("munmap of an address that is not the start of a mapping");
      V whole = veq(n, rg[k].size); if (!E.branch(whole)) bad("munmap does not release exactly one mapping"); for (auto& b : blk) if (b.live && rg[b.rg].store == rg[k].store) bad("memory of a live block is unmapped [in " + E.curFn + "]"); rg[k].live = false; r = V(0, 32); return true; }
    if (nm == "mprotect") { V a = A[0], n = A[1]; int prot = (int)E.concretize(A[2]); c.check(veq(vand(a, W(4095)), W(0)), "mprotect: address is not page aligned"); if (failNow("mprotect")) { r = V(-1ULL, 32); return true; } n = vand(vadd(n, W(4095)), W(-4096)); int k = -1; V f; for (int p = 0; p < 2 && k < 0; p++) for (int i = (int)rg.size() - 1; i >= 0 && k < 0; i--) if (rg[i].live) { f = idxOff(rg[i], a); V in = vand(vule(n, rg[i].size), vule(f, vsub(rg[i].size, n))); if ((E.model.eval(in) != 0) == !p && E.branch(in)) k = i; } if (k < 0) bad("mprotect of memory that is not mapped"); rg[k].pr.push_back({f, vadd(f, n)}); rg[k].pp.push_back(prot); r = V(0, 32); return true; }
    if (nm == "madvise" || nm == "posix_madvise") { int adv_ = (int)E.concretize(A[2]); V a = A[0], n = A[1]; c.check(veq(vand(a, W(4095)), W(0)), nm + ": address is not page aligned"); if (n.conc() && !n.c) { r = V(0, 32); return true; } V f; int k = -1; for (int i = 0; i < (int)rg.size(); i++) if (rg[i].live) { f = idxOff(rg[i], a); if (E.branch(vand(vule(n, rg[i].size), vule(f, vsub(rg[i].size, n))))) { k = i; break; } } if (k < 0) bad(nm + " of memory that is not mapped"); if (adv_ == 4 || adv_ == 8) adv.push_back({a, vadd(a, vand(vadd(n, W(4095)), W(-4096)))}); else bad(nm + " with an unexpected advice"); r = V(0, 32); return true; }
    if (nm == "pthread_mutex_lock" || nm == "pthread_mutex_unlock") return false;
    if (nm == "secure_getenv" || nm == "getenv") { if (envLen < 0) { r = W(0); return true; } u64 a = E.doMalloc(envLen + 1); E.allocs.erase(a); for (int i = 0; i < envLen; i++) E.mem.setByte(a + i, V(i == 0 || i == envLen - 1 ? '/' : 't', 8)); E.mem.setByte(a + envLen, V(0, 8)); r = W(a); return true; }
    if (nm == "stat" || nm == "stat64" || nm == "__xstat") { int k = sysk++; V ok = var("stat." + std::to_string(k), 2); u64 buf = E.concretize(A[nm == "__xstat" ? 2 : 1]); if (E.branch(vbit(ok, 0))) { say("osfail " + std::to_string(k)); r = V(-1ULL, 32); return true; } bool dir = E.branch(vbit(ok, 1)); if (!dir) say("osvar " + std::to_string(k) + " 1"); for (int i = 0; i < 144; i++) E.mem.setByte(buf + i, V(0, 8)); E.mem.store(buf + 24, V(dir ? 0040777 : 0100777, 32), 4, E.be); r = V(0, 32); return true; }
    if (nm == "strcpy") { u64 d = E.concretize(A[0]), s = E.concretize(A[1]); for (u64 i = 0;; i++) { V x = E.loadV(W(s + i), 1); E.storeV(W(d + i), x, 1); if (E.branch(veq(x, V(0, 8)))) break; } r = A[0]; return true; }
    if (nm == "open" || nm == "open64" || nm == "mkostemp" || nm == "mkostemp64" || nm == "memfd_create") { bool mk = nm.compare(0, 8, "mkostemp") == 0; if (mk) { u64 a = E.concretize(A[0]); std::string s; for (;; a++) { u64 ch = E.concretize(E.loadV(W(a), 1)); if (!ch) break; s += (char)ch; } if (s.size() < 7 || s.substr(s.size() - 7) != "/XXXXXX") bad("mkostemp with the template \"" + s + "\""); }
      if (failNow("open")) { r = V(-1ULL, 32); return true; } int fd = nextFd++; fds[fd] = 1; fdStore[fd] = nStore++; if (mk) tmpFiles.insert(std::to_string(fd)); r = V(fd, 32); return true; }
    if (nm == "unlink") { bool f = failNow("unlink"); if (!f) tmpFiles.clear(); else tmpFiles.clear(); r = V(f ? -1ULL : 0, 32); return true; }
    if (nm == "ftruncate" || nm == "ftruncate64") { i64 fd = sx(E.concretize(A[0]), 32); if (!fds.count(fd) || !fds[fd]) bad("ftruncate of a file descriptor that is not open"); if (failNow("ftruncate")) { r = V(-1ULL, 32); return true; } fdSize[fd] = vtrunc(A[1], pw); r = V(0, 32); return true; }
    if (nm == "fchmod") { r = V(0, 32); return true; }
    if (nm == "close") { i64 fd = sx(E.concretize(A[0]), 32); if (!fds.count(fd) || !fds[fd]) bad("close of a file descriptor that is not open"); fds[fd] = 0; r = V(0, 32); return true; }
    if (nm == "malloc") { if (failNow("malloc")) { r = W(0); return true; } if (A[0].conc()) return false; V n = A[0]; if (E.branch(vult(W(pw == 64 ? 1LL << 36 : 1LL << 22), n))) { failedInOp = true; r = W(0); return true; } Rg g; g.size = n; g.prot = 3; g.store = nStore++; g.base = W(pw == 64 ? 0x100000000010LL : 0x48000008LL); g.heap = true; rg.push_back(g); r = g.base; return true; }
    if (nm == "free") { if (!mine(A[0])) return false; for (auto& g : rg) if (g.live && g.heap && E.branch(veq(g.base, A[0]))) { g.live = false; r = V(0, 32); return true; } bad("free of an invalid pointer"); }
    return false; }
  void install() {
    E.ldHook = [this](V a, unsigned n, V& r) { return ld(a, n, r); }; lin.prov = [this](V x) { return x.conc() ? x.c != 0 : E.chk(vnot(x).t, nullptr) == 0; }; veqHook = [this](V a, V b, V& r) { if (a.w < E.pw) return false; Lin l = lin.of(a), m = lin.of(b); i64 p, q; if (!lin.interval(l, p, q) || !lin.interval(m, p, q)) return false; LinCtx::addTo(l, m, -1); bool ok; auto h = std::move(veqHook); veqHook = nullptr; V z = lin.cmp(l, true, ok); veqHook = std::move(h); if (ok) r = z; return ok; }; E.refuteHook = [this](const std::vector<T>& pc, T x, Model* m, const Model* base) { return lin.refute(pc, x, m, base); }; E.normHook = [this](V x) { return lin.norm(x); }; E.stHook = [this](V a, V v, unsigned n) { return st(a, v, n); }; E.callHook = [this](const std::string& f, const std::vector<V>& A, V& r) { return os(f, A, r); };
    c.customReplay = [this](Model& m) { return text(m); };
    for (auto* n : {"sljit_free_blocks", "sljit_allocated_size", "sljit_total_size"}) try { u64 a = E.globalAddr(n); watch.push_back({a, a + pw / 8}); if (std::string(n) == "sljit_allocated_size") aAlloc = a; else if (std::string(n) == "sljit_total_size") aTotal = a; } catch (std::exception&) {}
    haveTot = aAlloc && aTotal; }
  ~World() { E.ldHook = nullptr; E.normHook = nullptr; veqHook = nullptr; E.refuteHook = nullptr; E.stHook = nullptr; E.callHook = nullptr; c.customReplay = nullptr; }
  V glob(u64 a) { return E.mem.load(a, pw / 8, E.be); }
  V call(const char* fn, std::vector<V> a) { inOp = true; failedInOp = mapped = false; V r = E.call(fn, a); inOp = false; if (E.lockDepth) bad(std::string(fn) + " returns with the lock held"); for (auto& f : fds) if (f.second) bad(std::string(fn) + " leaves a file descriptor open"); if (!tmpFiles.empty()) bad(std::string(fn) + " leaves a temporary file"); return r; }
  int nLive() { int n = 0; for (auto& b : blk) n += b.live; return n; }
};
// ---------------------------------------------------------------- executable allocator
struct Alloc : World {
  bool prot, wx; int views;
  Alloc(Ctx& x) : World(x) { prot = AI.variant == "prot"; wx = AI.variant == "wx"; lockNeeded = !wx; views = prot ? 2 : 1; install(); }
  void totals(bool idle) {
    if (!haveTot || wx) return; V al = glob(aAlloc), tt = glob(aTotal); V sum = W(0); int n = 0; std::set<int> seen; for (auto& r : rg) if (r.live && seen.insert(r.store).second) { sum = vadd(sum, r.size); n++; }
    if (!haveK && n == 1) { K = vsub(sum, tt); haveK = true; c.check(vule(K, W(128)), "the total size does not match the mapped memory"); }
    if (haveK) c.check(veq(vadd(tt, vmul(K, W(n))), sum), "the total size does not match the mapped memory"); if (!n) c.check(veq(tt, W(0)), "the total size is not zero without mappings");
    V req = W(0); for (auto& b : blk) if (b.live) req = vadd(req, b.delta); c.check(veq(al, req), "the allocated size does not match the live blocks"); (void)idle; }
  void malloc_(V size) {
    say("malloc", {size}); std::vector<Rg> before = rg; V a0 = haveTot && !wx ? glob(aAlloc) : W(0);
    V r = call("sljit_malloc_exec", {size});
    if (r.conc() && !r.c) { if (!failedInOp && !(wx && wxOff) && !E.branch(vult(W(pw == 64 ? 1LL << 36 : 1LL << 22), size))) bad("sljit_malloc_exec returns NULL although no system call failed"); if (wx && failedInOp) wxMaybe(); 
      for (size_t i = 0; i < rg.size(); i++) { if (i < before.size() && rg[i].live != before[i].live) bad("a failed allocation unmaps memory"); if (i >= before.size() && rg[i].live) bad("a failed allocation leaves memory mapped"); } totals(false); say("null"); c.discharge(); return; }
    Blk b; b.ptr = r; b.size = size; V f; int k = -1; for (int p = 0; p < 2 && k < 0; p++) for (int i = 0; i < (int)rg.size(); i++) if (rg[i].live) { f = vsub(r, rg[i].base); V in = vult(f, rg[i].size); if ((E.model.eval(in) != 0) == !p && E.branch(in)) { k = i; break; } } if (k < 0) bad("sljit_malloc_exec returns an address outside of the mapped memory"); 
    Rg& R = rg[k]; c.check(vand(vule(size, R.size), vule(f, vsub(R.size, size))), "the block does not fit into its mapping"); c.check(veq(vand(r, W(7)), W(0)), "the block is not aligned to 8 bytes");
    for (auto& o : blk) if (o.live && rg[o.rg].store == R.store) c.check(vnot(overlap(o.off, o.size, f, size)), "two live blocks overlap");
    b.off = f; b.rg = k; b.live = true; b.x = r;
    if (prot) { V eo = E.call("sljit_exec_offset", {r}); b.x = vadd(r, eo); int xv = -1; for (int i = 0; i < (int)rg.size(); i++) if (rg[i].live && rg[i].store == R.store && (rg[i].prot & 4)) xv = i; if (xv < 0) bad("the block has no executable view"); c.check(veq(vsub(b.x, rg[xv].base), f), "the executable offset does not lead to the same memory in the executable view"); if (!(R.prot & 2)) bad("the returned view is not writable"); if (rg[xv].prot & 2) bad("a view is writable and executable"); }
    else if (wx) { V z = f; if (!E.branch(veq(size, W(0)))) { V p = var("probe.off" + std::to_string(blk.size()), pw); E.assume(vult(p, size)); int pr = protAt(R, vadd(z, p), 1, false); if ((pr & 3) != 3) bad("a new block is not readable and writable"); if (pr & 4) bad("a new block is writable and executable"); } }
    else if ((R.prot & 7) != 7) bad("the memory of a block is not readable, writable and executable");
    // reuse: a mapping is only created when no gap was large enough
    if (mapped && !wx) for (size_t i = 0; i < before.size(); i++) if (before[i].live && (before[i].prot & 2)) { V need = vadd(size, W(256)); std::vector<V> lo{W(0)}; for (auto& o : blk) if (o.live && o.rg == (int)i) lo.push_back(vadd(o.off, o.size)); for (V l : lo) { V ok = vand(vule(need, before[i].size), vule(l, vsub(before[i].size, need))); for (auto& o : blk) if (o.live && o.rg == (int)i) ok = vand(ok, vor(vule(vadd(l, need), o.off), vule(vadd(o.off, o.size), l))); c.check(vnot(ok), "new memory is mapped although a free gap is large enough"); } }
    if (haveTot && !wx) { b.delta = vsub(glob(aAlloc), a0); c.check(vule(size, b.delta), "the allocated size grows by less than the block"); }
    blk.push_back(b); log.push_back({R.store, f, 0, V(), true, size}); say("got " + std::to_string(blk.size() - 1)); totals(false); c.discharge(); }
  bool wxOff = false; void wxMaybe() { if (lastFail == "mprotect") wxOff = true; }
  void free_(int i) { say("free " + std::to_string(i)); blk[i].live = false; call("sljit_free_exec", {blk[i].x}); if (wx && rg[blk[i].rg].live) bad("a freed block is still mapped"); totals(false); c.discharge(); }
  void unused() { say("unused"); call("sljit_free_unused_memory_exec", {}); for (size_t i = 0; i < rg.size(); i++) if (rg[i].live) { bool used = false; for (auto& b : blk) if (b.live && rg[b.rg].store == rg[i].store) used = true; if (!used) bad("a chunk without live blocks is still mapped after sljit_free_unused_memory_exec"); } totals(false); c.discharge(); }
  void finish() { for (size_t i = 0; i < blk.size(); i++) if (blk[i].live) free_((int)i); unused(); c.phase = 5; } };
// the size is 8*q + r: q symbolic, r fixed by the task (every r is used by some task); class 0 lets the solver choose r too
V sz(Ctx& c, World& wd, int k, int cls, int pat) { Engine& E = c.E; unsigned w = E.pw; static const u64 lo[] = {0, 0, 56, 2000, 60000, 65400, 0}, hi[] = {0x40000, 200, 70000, 30000, 66000, 65600, 1ULL << 16}; static const u64 pt[][4] = {{0, 0, 0, 0}, {1, 1, 1, 1}, {7, 0, 1, 0}, {0, 1, 0, 7}, {4, 5, 3, 2}, {7, 7, 7, 7}}; std::string n = "size" + std::to_string(k);
  if (cls == 7) { V z = var(n, w); E.assume(vule(V(w == 64 ? 1ULL << 37 : 1ULL << 23, w), z)); return z; }   // more than the machine has
  u64 r = pt[pat % 6][k & 3]; u64 ql = lo[cls] > 7 ? (lo[cls] - r + 7) / 8 : 0, qh = (hi[cls] - r) / 8; V q = var(n, 17); E.assume(vule(V(ql, 17), q)); E.assume(vule(q, V(qh, 17))); wd.lin.reset(); wd.lin.range[q.t] = {(i64)ql, (i64)qh};
  return vconcat(vzx(q, w - 3), V(r, 3)); }
// sequence letters: m malloc (size class digit follows), f free block digit, u free unused
static Task seqTask(const std::string& seq, int layout, int fail, int env, int pat = 0) {
  Task t; t.id = "alloc " + seq + " layout" + std::to_string(layout) + " fail" + std::to_string(fail) + " r" + std::to_string(pat) + (env >= 0 ? " env" + std::to_string(env) : ""); t.maxPaths = THOROUGH ? 3000 : 400;
  t.fn = [=](Ctx& c) { auto w = std::make_shared<Alloc>(c); w->layout = layout; w->maxFail = fail; w->envLen = env; int k = 0; std::shared_ptr<World> keep = w; 
    c.customReplay = [w0 = w.get()](Model& m) { return w0->text(m); }; c.keep = keep;
    for (size_t i = 0; i < seq.size(); i++) { if (seq[i] == 'm') { w->malloc_(sz(c, *w, k, seq[++i] - '0', pat)); k++; } else if (seq[i] == 'f') { int b = seq[++i] - '0'; if (b < (int)w->blk.size() && w->blk[b].live) w->free_(b); } else if (seq[i] == 'u') w->unused(); else if (seq[i] == 'F') w->maxFail = w->fails + 1; }
    w->finish(); };
  return t; }
static void allocTasks(Tasks& T) {
  bool wx = AI.variant == "wx", prot = AI.variant == "prot";
  std::vector<std::string> seqs = {"m0", "m1m1", "m0m0", "m1m1m1", "m1m1m1f1m1", "m1m1m1f0f1m2", "m1m1m1f1f0m2", "m1m1m1f1f2m2", "m1m1m1f2f1m2", "m1m1m1f0f2f1m4", "m1m1m1f2f0f1", "m1f0m1", "m1um1u", "m3m3m3f1m3", "m4m1f0m4", "m5m1m1f1f0", "m4m4f0um4", "m4m4m4f1f0um4", "m4m4m4f2f1f0", "m0f0m0f1", "m2m2f0m2f1m2", "m3m3m3m3f1f2m3u", "m1m1m1m1f1f3f2m1", "m1m1m1m1f0f2f1f3", "m0m0m0", "m0m0f0m0", "m4m4f1f0u", "m1m4f1um4", "m3m4m3f2f0m4", "m6m6m6f1m6", "m5", "m5m5f0m5", "m7", "m1m7f0", "m4m7m4f1f0"};
  std::vector<std::string> deep = {"m0m0m0f1m0f0m0", "m1m1m1m1m1f1f3f2m2", "m3m3m3m3m3f0f2f4f1f3u", "m4m1m4m1f0f2um1m4", "m1m1f0m1f1m1f2m1", "m0f0um0f1um0", "m2m2m2f0f2m2m2", "m4m4m4m4f0f1f2um4"};
  for (auto& s : deep) seqs.push_back(s);
  if (THOROUGH) { // every sequence of 6 operations over at most 4 blocks
    std::vector<std::pair<std::string,int>> cur{{"", 0}}; for (int d = 0; d < 6; d++) { std::vector<std::pair<std::string,int>> nx; for (auto& p : cur) { for (char cl : {'1', '3', '4'}) if (p.second < 4) nx.push_back({p.first + "m" + cl, p.second + 1}); for (int b = 0; b < p.second; b++) if (p.first.find("f" + std::to_string(b)) == std::string::npos) nx.push_back({p.first + "f" + std::to_string(b), p.second}); if (d && p.first[p.first.size() - 1] != 'u' && p.first.size() > 2) nx.push_back({p.first + "u", p.second}); } cur.swap(nx); } for (auto& p : cur) seqs.push_back(p.first); }
  int n = 0; for (auto& s : seqs) for (int l = 0; l < 3; l++) for (int f = 0; f < 2; f++) { if (s.find_first_not_of("0123456789mfu") != std::string::npos) continue; if (l == 2 && f) continue; T.push_back(seqTask(s, l, f, -1, n++)); }
  for (auto& s : {"m1Fm4Fm4f0m1", "m4FuFm4m1", "m1m4f1Fm4m1"}) T.push_back(seqTask(s, 0, 1, -1));
  if (prot) for (int e : {0, 1, 2, 4, 100, 240, 246, 247, 248, 249, 250, 254, 255, 256, 257, 300}) for (int f = 0; f < 3; f++) T.push_back(seqTask("m1m4", 0, f, e)); (void)wx; }
static Reg_ r1("alloc", allocTasks);
// ---------------------------------------------------------------- W^X page permissions while code is written
// ---------------------------------------------------------------- stack utility
struct Stk : World {
  bool simple; u64 s = 0; V end, minS; V start; V maxIn; 
  Stk(Ctx& x) : World(x) { simple = AI.variant == "simple"; stackMode = true; install(); }
  V fld(int k) { V r = E.call("hz_stack_field", {W(s), V(k, 32)}); return r; }
  void alloc(V ss, V mx) {
    say("stack_alloc", {ss, mx}); V r = call("sljit_allocate_stack", {ss, mx, W(0)}); V ok = vand(vule(ss, mx), vule(W(1), ss));
    if (r.conc() && !r.c) { if (!failedInOp) c.check(vnot(ok), "sljit_allocate_stack refuses a valid request"); for (auto& g : rg) if (g.live) bad("a failed sljit_allocate_stack leaves memory mapped"); if (!E.allocs.empty()) bad("a failed sljit_allocate_stack leaks memory"); say("null"); c.discharge(); c.phase = 5; throw PathStop{"done", 6}; }
    c.check(ok, "sljit_allocate_stack accepts an invalid request"); s = E.concretize(r); if (!E.allocs.count(s)) bad("the stack structure is not on the heap");
    say("got 0"); minS = fld(2); end = fld(1); start = fld(0); V top = fld(3); 
    c.check(veq(top, end), "top is not at the end of an empty stack"); c.check(veq(vsub(end, start), ss), "the stack does not have the requested size"); c.check(vule(minS, start), "start lies below the lower limit"); c.check(vule(mx, vsub(end, minS)), "the limit is smaller than requested");
    Rg* g = nullptr; for (auto& q : rg) if (q.live) g = &q; if (!g) bad("a stack without mapping"); c.check(veq(minS, g->base), "the lower limit is not the start of the mapping"); c.check(vule(vsub(end, minS), g->size), "the stack exceeds its mapping"); if ((g->prot & 3) != 3) bad("the stack memory is not readable and writable"); if (!simple) { c.check(veq(vand(end, W(4095)), W(0)), "the end of the stack is not page aligned"); c.check(vult(vsub(vsub(end, minS), mx), W(4096)), "the limit is rounded to more than one page"); }
    c.discharge(); }
  void resize(V ns) {
    say("stack_resize", {vsub(ns, minS)}); size_t na = adv.size(); V r = call("sljit_stack_resize", {W(s), ns}); V ok = vand(vule(minS, ns), vult(ns, end)); V st1 = fld(0);
    c.check(veq(fld(1), end), "a resize changes the end"); c.check(veq(fld(2), minS), "a resize changes the lower limit"); c.check(veq(fld(3), end), "a resize changes top");
    if (r.conc() && !r.c) { c.check(vnot(ok), "a resize inside the limits is refused"); c.check(veq(st1, start), "a refused resize changes the stack"); if (adv.size() != na) bad("a refused resize discards memory"); say("null"); }
    else { c.check(ok, "a resize outside the limits is accepted"); c.check(veq(r, ns), "a resize does not return the new start"); c.check(veq(st1, ns), "a resize does not set the new start"); start = ns;
      // contents between the new start and the end are kept
      for (size_t k = na; k < adv.size(); k++) c.check(vule(adv[k].second, ns), "a resize discards memory that is still in use"); say("got 0"); }
    for (auto& g : rg) if (!g.live) bad("a resize unmaps memory"); c.discharge(); }
  void finish() { say("stack_free"); call("sljit_free_stack", {W(s), W(0)}); for (auto& g : rg) if (g.live) bad("sljit_free_stack leaves memory mapped"); if (!E.allocs.empty()) bad("sljit_free_stack leaks memory"); c.phase = 5; } };
static Reg_ r2("stack", [](Tasks& T) {
  struct B { const char* n; u64 lo, hi; }; static const B bs[] = {{"small", 0, 3 * 4096}, {"any", 0, ~0ULL}, {"page", 4090, 4100}, {"big", 1 << 19, (1 << 20) + 4096}};
  for (auto& b : bs) for (int nr = 0; nr <= (THOROUGH ? 5 : 3); nr++) for (int f = 0; f < 2; f++) for (int mode = 0; mode < 3; mode++) { if (nr == 0 && mode) continue; B bb = b; Task t; t.id = std::string("stack ") + b.n + " resizes" + std::to_string(nr) + " mode" + std::to_string(mode) + " fail" + std::to_string(f); t.maxPaths = 1500;
    t.fn = [=](Ctx& c) { auto w = std::make_shared<Stk>(c); c.keep = w; w->maxFail = f; auto& E = c.E; V ss = var("start", E.pw), mx = var("max", E.pw); if (bb.lo) E.assume(vule(V(bb.lo, E.pw), mx)); if (bb.hi != ~0ULL) E.assume(vule(mx, V(bb.hi, E.pw)));
      w->alloc(ss, mx); for (int k = 0; k < nr; k++) { V ns = var("new" + std::to_string(k), E.pw); if (mode == 1) E.assume(vand(vule(w->minS, ns), vult(ns, w->end))); if (mode == 2) E.assume(vule(w->start, ns)); w->resize(ns); } w->finish(); };
    T.push_back(t); } });
}
