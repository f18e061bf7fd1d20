// C14 the bundled regular expression matcher: the real compiler (bitcode of regexJIT.c and sljitLir.c) runs on a pattern that may contain
// symbolic characters, the machine code it produces runs on a string of symbolic characters, and the reported match is compared with the
// leftmost (longest or shortest) match computed from the pattern by an independent matrix formulation of regular language membership.
#include "tasks.h"
#include <algorithm>
bool archAsm(Engine* E, const std::string& nm, const std::vector<V>& A, V& r);
namespace {
enum { F_BEGIN = 1, F_END = 2, F_NL = 4, F_NG = 8 };
V B1(bool b) { return V(b, 1); }
struct Nd { int k; std::vector<int> ch; std::vector<std::pair<V,V>> set; bool neg = false; i64 id = 0; };
enum { N_EMPTY, N_SET, N_CAT, N_ALT, N_STAR, N_PLUS, N_OPT, N_ID };
struct Invalid {}; // malformed pattern
struct Pat { // the pattern language, parsed independently of the code under check
  Engine& E; std::vector<V> p; size_t at = 0; int flags; std::vector<Nd> nd; std::vector<i64> ids; int root = 0;
  Pat(Engine& e, const std::vector<V>& v, int f) : E(e), p(v), flags(f) {}
  bool is(size_t k, char c) { return k < p.size() && E.branch(veq(p[k], V((u8)c, 8))); }
  bool digit(size_t k) { return k < p.size() && E.branch(vand(vule(V('0', 8), p[k]), vule(p[k], V('9', 8)))); }
  int add(int k, std::vector<int> ch = {}) { Nd n; n.k = k; n.ch = ch; nd.push_back(n); return (int)nd.size() - 1; }
  int chr(V c) { int k = add(N_SET); nd[k].set.push_back({c, c}); return k; }
  int any() { int k = add(N_SET); nd[k].neg = true; if (flags & F_NL) for (char c : {'\n', '\r'}) nd[k].set.push_back({V(c, 8), V(c, 8)}); return k; }
  V lit(size_t& q) { if (is(q, '\\')) q++; if (q >= p.size()) throw Invalid(); return p[q++]; }
  int range() { // at points behind '['
    int k = add(N_SET); size_t q = at; if (q >= p.size()) throw Invalid(); if (is(q, '^')) { nd[k].neg = true; q++; if (q >= p.size()) throw Invalid(); }
    if (is(q, ']')) { nd[k].set.push_back({V(']', 8), V(']', 8)}); q++; }
    for (;;) { if (q >= p.size()) throw Invalid(); if (is(q, ']')) break; V l = lit(q), r = l; if (p.size() - q >= 3 && is(q, '-') && !is(q + 1, ']')) { q++; r = lit(q); } nd[k].set.push_back({l, r}); }
    at = q + 1; return k; }
  // {n} {n,} {n,m} {,m} {,} or {id!}; false: not an iterator, nothing consumed
  bool number(size_t& q, i64& v) { if (!digit(q)) return false; v = 0; while (digit(q)) v = v * 10 + (i64)(E.concretize(p[q++]) - '0'); return true; }
  bool iter(i64& lo, i64& hi, bool& id) { size_t q = at; id = false; lo = 0; hi = -1;
    if (is(q, ',')) q++; else { if (!number(q, lo)) return false; if (is(q, '}')) { hi = lo; at = q + 1; return true; } if (is(q, '!') && is(q + 1, '}')) { id = true; at = q + 2; return true; } if (!is(q, ',')) return false; q++; }
    if (is(q, '}')) { at = q + 1; return true; } if (!number(q, hi) || !is(q, '}') || hi < lo) return false; at = q + 1; return true; }
  int rep(int t, i64 lo, i64 hi) { std::vector<int> c; for (i64 k = 0; k < lo; k++) c.push_back(t); if (hi < 0) c.push_back(add(N_STAR, {t})); else { int o = -1; for (i64 k = lo; k < hi; k++) o = o < 0 ? add(N_OPT, {t}) : add(N_OPT, {add(N_CAT, {t, o})}); if (o >= 0) c.push_back(o); } return add(N_CAT, c); }
  int alt(int depth) { std::vector<int> br; std::vector<int> seq; bool begin = true;
    auto close = [&] { br.push_back(add(N_CAT, seq)); seq.clear(); };
    for (;;) {
      if (at >= p.size()) { if (depth) throw Invalid(); close(); break; }
      if (is(at, '\\')) { at++; if (at >= p.size()) throw Invalid(); seq.push_back(chr(p[at++])); begin = false; }
      else if (is(at, '.')) { at++; seq.push_back(any()); begin = false; }
      else if (is(at, '(')) { at++; int x = alt(depth + 1); seq.push_back(x); begin = false; }
      else if (is(at, ')')) { if (!depth) throw Invalid(); at++; close(); break; }
      else if (is(at, '|')) { at++; close(); begin = true; }
      else if (is(at, '*') || is(at, '+') || is(at, '?')) { if (begin) throw Invalid(); int k = is(at, '*') ? N_STAR : is(at, '+') ? N_PLUS : N_OPT; at++; int x = add(k, {seq.back()}); seq.back() = x; }
      else if (is(at, '{')) { size_t s = at++; i64 lo, hi; bool id; if (iter(lo, hi, id) && (id || !begin)) {
          if (id) { int x = add(N_ID); nd[x].id = lo; if (lo > 0) ids.push_back(lo); if (begin) seq.push_back(x); else { int y = add(N_CAT, {seq.back(), x}); seq.back() = y; } }
          else { int x = rep(seq.back(), lo, hi); seq.back() = x; } }
        else { at = s + 1; if (begin) throw PathStop{"pattern outside of the described language", 0}; seq.push_back(chr(V('{', 8))); } }
      else if (is(at, '[')) { at++; seq.push_back(range()); begin = false; }
      else if (at + 1 == p.size() && is(at, '$')) { at++; flags |= F_END; }
      else { seq.push_back(chr(p[at++])); begin = false; } }
    return add(N_ALT, br); }
  void parse() { if (is(0, '^')) { flags |= F_BEGIN; at = 1; } root = alt(0); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end()); }
  // ---- membership: matrices over positions; [0] some path, [1+k] a path through an id >= ids[k]
  typedef std::vector<std::vector<V>> Mx; int n; std::vector<V> s;
  Mx zero() { return Mx(n + 1, std::vector<V>(n + 1, B1(false))); } Mx one() { Mx m = zero(); for (int i = 0; i <= n; i++) m[i][i] = B1(true); return m; }
  Mx mul(const Mx& a, const Mx& b) { Mx r = zero(); for (int i = 0; i <= n; i++) for (int j = i; j <= n; j++) for (int k = i; k <= j; k++) r[i][j] = vor(r[i][j], vand(a[i][k], b[k][j])); return r; }
  Mx sum(const Mx& a, const Mx& b) { Mx r = a; for (int i = 0; i <= n; i++) for (int j = i; j <= n; j++) r[i][j] = vor(a[i][j], b[i][j]); return r; }
  std::vector<std::vector<Mx>> memo; std::vector<u8> has;
  const std::vector<Mx>& ev(int x) { if (has[x]) return memo[x]; Nd d = nd[x]; size_t K = ids.size(); std::vector<Mx> r(K + 1, zero());
    switch (d.k) {
      case N_EMPTY: r[0] = one(); break;
      case N_ID: r[0] = one(); for (size_t k = 0; k < K; k++) if (d.id >= ids[k]) r[1 + k] = one(); break;
      case N_SET: for (int i = 0; i < n; i++) { V c = s[i], in = B1(false); for (auto& q : d.set) in = vor(in, vor(vand(vule(q.first, c), vule(c, q.second)), vand(vule(q.second, c), vule(c, q.first)))); r[0][i][i + 1] = d.neg ? vnot(in) : in; } break;
      case N_CAT: r[0] = one(); for (int c : d.ch) { auto m = ev(c); for (size_t k = 1; k <= K; k++) r[k] = sum(mul(r[k], m[0]), mul(r[0], m[k])); r[0] = mul(r[0], m[0]); } break;
      case N_ALT: for (int c : d.ch) { auto m = ev(c); for (size_t k = 0; k <= K; k++) r[k] = sum(r[k], m[k]); } break;
      default: { auto m = ev(d.ch[0]); if (d.k == N_OPT) { r = m; r[0] = sum(r[0], one()); break; }
        Mx st = one(); for (int i = 0; i <= n; i++) st = sum(one(), mul(st, m[0])); r[0] = d.k == N_STAR ? st : mul(m[0], st); for (size_t k = 1; k <= K; k++) r[k] = mul(mul(st, m[k]), st); } }
    memo[x] = r; has[x] = 1; return memo[x]; }
  static V nl(V c) { return vor(veq(c, V('\n', 8)), veq(c, V('\r', 8))); }
  struct Res { V found, begin, end, id; };
  Res match(const std::vector<V>& str) { s = str; n = (int)s.size(); memo.assign(nd.size(), {}); has.assign(nd.size(), 0); auto m = ev(root); Mx ok = m[0]; V pos[64];
    for (int i = 0; i <= n; i++) for (int j = i; j <= n; j++) { V b = B1(true); if (flags & F_BEGIN) b = i == 0 ? B1(true) : flags & F_NL ? nl(s[i - 1]) : B1(false); if (flags & F_END) b = vand(b, j == n ? B1(true) : flags & F_NL ? nl(s[j]) : B1(false)); ok[i][j] = vand(ok[i][j], b); }
    Res r; r.found = B1(false); r.begin = V(~0ULL, 32); r.end = V(0, 32); r.id = V(0, 32);
    for (int i = n; i >= 0; i--) for (int q = i; q <= n; q++) { int j = flags & F_NG ? n - (q - i) : q; // later assignments win: the earliest begin, then the longest (shortest) end
        V id(0, 32); for (size_t k = 0; k < ids.size(); k++) id = vite(m[1 + k][i][j], V(ids[k], 32), id); 
        r.found = vor(r.found, ok[i][j]); r.begin = vite(ok[i][j], V(i, 32), r.begin); r.end = vite(ok[i][j], V(j, 32), r.end); r.id = vite(ok[i][j], id, r.id); }
    return r; } };
struct RT { std::string name, pat; int flags = 0, n = 3; std::vector<int> chunks; bool reset = false, fail = false, sym = false; std::string alpha; };
struct Run { Ctx& c; Engine& E; std::unique_ptr<Machine> M; std::vector<V> patv, str[2]; std::string script; struct D { std::string s; std::vector<V> v; }; std::vector<D> out; u64 steps = 0; int fk = 0; V failAt; 
  Run(Ctx& x) : c(x), E(x.E) {}
  void say(const std::string& s, std::vector<V> v = {}) { out.push_back({s, v}); }
  std::string text(Model& m) { std::string r; for (auto& d : out) { r += d.s; for (auto& v : d.v) { char b[32]; snprintf(b, 32, " %llx", (unsigned long long)m.eval(v)); r += b; } r += "\n"; } return r; }
  V jit(u64 ad, const std::vector<V>& a) { // a call of generated code
    u64 lo = 0, hi = 0; for (auto& x : E.execs) if (ad >= x.first && ad < x.first + x.second) lo = x.first, hi = x.first + x.second; if (!lo) throw PathStop{"call of an address that is not generated code", 1};
    M.reset(mkMachine(E)); auto& m = *M; m.useE = true; m.codeLo = lo; m.codeHi = hi; for (int i = 0; i < 40; i++) { m.r[i] = V(0, AI.xl); m.f[i] = V(0, 64); m.fh[i] = V(0, 64); } m.init();
    for (int i = 0; i < m.nGpr(); i++) m.r[i] = var("m.r" + std::to_string(i), AI.xl); for (int i = 0; i < m.nFpr(); i++) m.f[i] = var("m.f" + std::to_string(i), 64);
    m.r[m.spReg()] = V(SP0, AI.xl); auto ar = m.argRegs(); const u64 RET = 0x44000000;
    for (size_t k = 0; k < a.size(); k++) { V v = vsxt(a[k], AI.xl); if (AI.name == "x86_32") for (int o = 0; o < 4; o++) m.stk[SP0 + 4 * k + o] = vext(v, 8 * o, 8); else m.r[ar[k]] = v; }
    m.setReturn(RET); m.pc = ad; m.trap = [](Machine& m) { if (m.pc == 0x44000000) { m.stopped = true; return true; } return false; }; m.run(0, 20000); c.st.machSteps += m.steps; V r = m.r[m.retReg()]; if (!m.getSp().is(SP0)) throw PathStop{"the generated code returns with a wrong stack pointer", 1}; M.reset(); return r; }
  V call(const char* f, std::vector<V> a) { return E.call(f, a); } };
std::vector<V> lits(const std::string& s) { std::vector<V> v; int k = 0; for (char ch : s) v.push_back(ch == 1 ? var("p" + std::to_string(k++), 8) : V((u8)ch, 8)); return v; }
u64 put(Engine& E, const std::vector<V>& s) { u64 a = E.doMalloc(s.size()); for (size_t i = 0; i < s.size(); i++) E.mem.store(a + i, s[i], 1, E.be); return a; }
std::string hx(const std::string& n, int k) { return n + " " + std::to_string(k); }
void runTask(Ctx& c, const RT& t) {
  auto R = std::make_shared<Run>(c); c.keep = R; auto& r = *R; Engine& E = c.E; V P0 = E.P(0);
  E.failHook = nullptr; E.extHook = [R, &E](const std::string& nm, const std::vector<V>& A, V& out) { if (nm[0] == '@') { out = R->jit(strtoull(nm.c_str() + 1, 0, 10), A); return true; } return archAsm(&E, nm, A, out); };
  c.phase = 4; c.customReplay = [R](Model& m) { return R->text(m); };
  r.patv = lits(t.pat); u64 pa = put(E, r.patv), err = E.doMalloc(4), endp = E.doMalloc(4), idp = E.doMalloc(4); 
  if (t.fail) { r.failAt = var("fail", 8); }
  r.say("pattern", r.patv); r.say(hx("flags", t.flags)); if (t.fail) r.say("fail", {r.failAt});
  size_t base = E.allocs.size(); bool failed = false; E.mem.store(err, V(0x55, 32), 4, E.be);
  if (t.fail) E.failHook = [R, &E, &failed] { if (E.branch(veq(R->failAt, V(R->fk++, 8)))) { failed = true; return true; } return false; };
  struct Off { Engine& E; ~Off() { E.failHook = nullptr; } } off{E};
  V m = r.call("regex_compile", {E.P(pa), V(r.patv.size(), 32), V(t.flags, 32), E.P(err)}); V ec = E.mem.load(err, 4, E.be);
  Pat pt(E, r.patv, t.flags); bool inv = false; E.failHook = nullptr; if (!failed) { try { pt.parse(); } catch (Invalid&) { inv = true; } }
  auto leak = [&](const char* w) { if (E.allocs.size() != base) throw PathStop{std::string("memory is leaked by ") + w, 1}; if (!E.execs.empty()) throw PathStop{std::string("executable memory is leaked by ") + w, 1}; };
  if (failed) { r.say("error 1"); if (!m.is(0)) throw PathStop{"regex_compile succeeds although an allocation failed", 1}; c.check(veq(ec, V(1, 32)), "error code after a failed allocation"); c.discharge(); leak("a failed regex_compile"); c.phase = 5; return; }
  if (inv) { r.say("error 2"); if (!m.is(0)) throw PathStop{"a malformed pattern is accepted", 1}; c.check(veq(ec, V(2, 32)), "error code of a malformed pattern"); c.discharge(); leak("regex_compile of a malformed pattern"); c.phase = 5; return; }
  r.say("error 0"); if (m.is(0)) throw PathStop{"a well-formed pattern is refused", 1}; c.check(veq(ec, V(0, 32)), "error code of a well-formed pattern"); c.discharge();
  if (t.fail) { E.failHook = [R, &E, &failed] { if (E.branch(veq(R->failAt, V(R->fk++, 8)))) { failed = true; return true; } return false; }; }
  V mt = r.call("regex_begin_match", {m}); E.failHook = nullptr;
  if (failed) { r.say("nomatch"); if (!mt.is(0)) throw PathStop{"regex_begin_match succeeds although an allocation failed", 1}; r.call("regex_free_machine", {m}); leak("a failed regex_begin_match"); c.phase = 5; return; }
  if (mt.is(0)) throw PathStop{"regex_begin_match fails", 1};
  for (int round = 0; round < (t.reset ? 2 : 1); round++) {
    int n = t.reset && !round ? 1 : t.n; auto& s = r.str[round]; for (int i = 0; i < n; i++) { V ch = var("s" + std::to_string(round) + "." + std::to_string(i), 8); s.push_back(ch); if (!t.alpha.empty()) { V ok = B1(false); for (char q : t.alpha) ok = vor(ok, veq(ch, V((u8)q, 8))); E.assume(ok); } }
    if (round) { r.say("reset"); r.call("regex_reset_match", {mt}); }
    size_t done = 0; bool fin = false; Pat::Res fr; auto chunks = t.chunks; chunks.insert(chunks.begin(), 0);
    for (size_t q = 0; q < chunks.size() || done < s.size(); q++) { size_t len = q < chunks.size() ? std::min((size_t)chunks[q], s.size() - done) : s.size() - done; if (q && !len) { if (done >= s.size()) break; }
      std::vector<V> part(s.begin() + done, s.begin() + done + len); done += len; std::vector<V> pre(s.begin(), s.begin() + done);
      if (q) { u64 a = put(E, part); r.say("chunk", part); r.call("regex_continue_match", {mt, E.P(a), V(len, 32)}); E.doFree(a); }
      V b = r.call("regex_get_result", {mt, E.P(endp), E.P(idp)}), e = E.mem.load(endp, 4, E.be), id = E.mem.load(idp, 4, E.be), fl = r.call("regex_is_match_finished", {mt});
      Pat::Res x = pt.match(pre); r.say("result", {x.found, x.begin, x.end, x.id}); char nm[64]; snprintf(nm, 64, " after %d characters", (int)done); b = vtrunc(b, 32); V f = x.found;
      c.check(veq(b, x.begin), std::string("begin of the match") + nm); c.check(vor(vnot(f), veq(e, x.end)), std::string("end of the match") + nm); c.check(vor(vnot(f), veq(id, x.id)), std::string("id of the match") + nm);
      if (fin) { c.check(vand(veq(x.begin, fr.begin), vor(vnot(f), vand(veq(x.end, fr.end), veq(x.id, fr.id)))), std::string("the match was reported as finished, but more input changes it") + nm); }
      c.discharge(); if (E.branch(vne(vtrunc(fl, 32), V(0, 32)))) { if (!fin) fr = x; fin = true; } } }
  r.call("regex_free_match", {mt}); r.call("regex_free_machine", {m}); leak("a finished match"); c.phase = 5; }
void regexTasks(Tasks& T) {
  auto add = [&](RT t) { Task k; std::string p; for (char ch : t.pat) { char b[8]; if (ch == 1) p += "<?>"; else if ((u8)ch < 32 || (u8)ch > 126) { snprintf(b, 8, "\\x%02x", (u8)ch); p += b; } else p += ch; } std::string ck; for (int q : t.chunks) ck += std::to_string(q);
    k.id = "regex " + t.name + " '" + p + "' flags" + std::to_string(t.flags) + " n" + std::to_string(t.n) + " chunks" + ck + (t.reset ? " reset" : "") + (t.fail ? " fail" : ""); k.maxPaths = THOROUGH ? 4000 : 500; k.fn = [t](Ctx& c) { runTask(c, t); }; T.push_back(k); };
  struct Pp { const char* p; int n; }; static const Pp ps[] = {
    {"", 2}, {"[x-za-c]q", 4}, {"[m-pa-cx-z]b", 4}, {"[c-ea-c]+x", 3}, {"([c-d]|[a-bx-y])z", 3}, {"[d-fa]b", 3}, {"a", 3}, {"ab", 4}, {"a|b", 3}, {"abc", 4}, {"a*", 3}, {"a+", 4}, {"a?b", 3}, {"a*b", 4}, {"(ab)*", 4}, {"(ab)+c", 5}, {"(a|b)*c", 4}, {"a(b|c)d", 4}, {"ab|a", 3}, {"a|ab", 3}, {"abc|b", 4}, {"abcd|c", 5}, {"a.c", 4}, {".", 2}, {".*", 3}, {".+a", 3}, {"a.*b", 4}, {"..", 3},
    {"[abc]", 3}, {"[^a]", 3}, {"[a-c]", 3}, {"[^a-c]b", 3}, {"[a-cx-z]", 2}, {"[]a]", 3}, {"[^]a]", 2}, {"[a-]", 2}, {"[\\]\\\\]", 2}, {"[z-x]a", 3}, {"[a-b]*c", 4}, {"\\*a", 3}, {"a\\.", 3}, {"a{2}", 4}, {"a{2,3}", 4}, {"a{2,}", 4}, {"a{,2}b", 4}, {"a{0}b", 3}, {"a{0,1}b", 3}, {"a{1}b", 3}, {"a{1,}", 3}, {"(ab){2}", 5}, {"(a|b){2}c", 4}, {"(ab){0}c", 3}, {"(ab){1,2}", 5}, {"a{x", 4}, {"a{3,2}", 2}, {"a{2}{2}", 5}, {"(a{2}b){2}", 7},
    {"a{5!}|b", 3}, {"a{1!}|a{2!}", 3}, {"{3!}a", 2}, {"(a{2!}|b{1!})*", 3}, {"(a{1!}b|a{2!}c)d", 4}, {"a{3!}b{1!}", 3}, {"(a{1!}|ab{2!})c?", 4}, {"(|a{4!})b", 3}, {"a{0!}b", 3}, {"(a{2!}){2}b", 4}, {"a{7!}*b", 3}, {"ab{2!}|abc{1!}", 4}, {"(a|{2!})*b", 3}, {"a{70000!}|b{1!}", 2},
    {"^a", 3}, {"a$", 3}, {"^ab$", 3}, {"^a*b", 3}, {"b*$", 3}, {"^", 2}, {"$", 2}, {"^$", 2}, {"a|b$", 3}, {"^(a|bc)", 3}, {"[^x]+$", 3}, {"(a[^q][^q]c|b)$", 4}, {"(ab|b)$", 3}, {"(abc|b)", 4}, {"x*a", 3}, {"a||b", 2}, {"()a", 2}, {"(|a)b", 3}, {"(a*)*b", 3}, {"(a*b*)*c", 3}, {"(a|b|ab)(c|bcd)", 5}, {"a**", 3}, {"a+?b", 3}, {"((a))", 2}, {"(a(b(c)?)?)+", 4}, {"aa*aa", 5}, {"a.?b", 4}, {"[ab][bc][cd]", 4}, {"\xe9", 2}, {"[\x80-\xff]", 2}, {"[a-\xf0]", 2}, {"[^\xe9]a", 2}, {"\xff*\x80", 3}, {"a\nb", 3}, {"\r", 2} };
  int k = 0; for (auto& q : ps) for (int f = 0; f < 16; f++) { k++; if (!THOROUGH && f && (k * 7 + f * 3) % 3 && strlen(q.p) > 1 && !strpbrk(q.p, "$^")) continue; RT t; t.name = "match"; t.pat = q.p; t.flags = f; t.n = q.n; if (f & F_NL && t.n > 3) t.n--; 
      switch (k % 4) { case 0: t.chunks = {t.n}; break; case 1: t.chunks = std::vector<int>(t.n, 1); break; case 2: t.chunks = {1 + k % t.n}; break; default: t.chunks = {t.n / 2, 0, 9}; t.reset = t.n < 4; break; }
      add(t); }
  // malformed patterns
  for (const char* s : {"(", ")", "*", "+", "?", "a)", "(a", "[", "[a", "[]", "[^", "[^]", "[a-", "[\\", "\\", "(*a)", "(?a)", "a|*", "a|+b", "((a)", "^*", "(a|b", "[a-\\", "a(b)c)", "(|*)", "^?", "ab[c", "{1!}*"}) { RT t; t.name = "malformed"; t.pat = s; t.n = 1; t.chunks = {1}; add(t); t.fail = true; if (strlen(s) < 4) add(t); }
  // symbolic characters in the pattern
  for (const char* s : {"\1", "\1\1", "a\1", "\1a", "\1\1\1", "a\1\1", "[\1]", "[\1-\1]", "[\1-\1a-c]d", "[m-p\1-\1]d", "[\1\1]b", "[\1\1]", "[\1\1", "[^\1-\1]", "(\1\1", "(a\1)\1", "a{\1}", "a{\1\1}", "a{1,\1}", "a{1\1\1", "a\\\1", "[\\\1]", "a|\1", "^\1", "\1$", "a{\1!}b", "{\1!\1", "[a\1\1]", "(a|\1)\1", "[\1-\1\1]"}) for (int f : {0, 2, 4, 9}) { RT t; t.name = "pattern"; t.pat = s; t.flags = f; t.n = 1 + (f == 0); t.chunks = {1, 1}; add(t); }
  // allocation failures
  for (const char* s : {"a", "[a-c]b", "a{3}", "(a|b){2}", "a{2!}|b", "a{0}b", "a{2,}", "a{1,3}", "(((((((((((a)))))))))))", "a*b+c?", "^a$", "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789", "(abcdefghij){7}", "(abcdefghij){3,9}"}) for (int f : {0, 4, 7}) { RT t; t.name = "alloc"; t.pat = s; t.flags = f; t.n = 1; t.chunks = {1}; t.fail = true; add(t); }
  // patterns that need more than one stack fragment
  for (const char* s : {"(abcdefgh){8}", "((ab){4}c){9}", "(a|b){30}c", "a{64}", "a{62}b", "a{63}?b", "(ab?){21}", "[abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789]", "[abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ01234567]b{3,}"}) for (int f : {0, 1, 3}) { RT t; t.name = "long"; t.pat = s; t.flags = f; t.n = 2; t.chunks = {1, 1}; add(t); } }
Reg_ rr("regex", regexTasks);
}
