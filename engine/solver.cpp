#include <cstring>
#include "solver.h"
#include <chrono>
#include <algorithm>
#include <set>
#include <iterator>
SolverStats SST;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void errh(Z3_context c, Z3_error_code e) { throw std::runtime_error(std::string("z3: ") + Z3_get_error_msg(c, e)); }
Solver::Solver() { init(); }
Solver::~Solver() { fini(); }
void Solver::init() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); 
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, errh);
  s = getenv("INCSAT") ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")) : Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  stack.clear(); memo[0].clear(); memo[1].clear(); memo[2].clear(); decls.clear(); usedAbs = false; absMemo.clear(); }
void Solver::fini() { cache.clear(); supMemo.clear(); if (s) Z3_solver_dec_ref(ctx, s); s = nullptr; if (ctx) Z3_del_context(ctx); ctx = nullptr; }
// booleans are encoded as BV1
static bool isAbs(const Node& x) { if (x.op == O_UF) return TM.ufs[x.val].ev != nullptr; 
  if (x.op == O_MUL) return x.w > 12 && TM.n[x.a].op != O_CONST && TM.n[x.b].op != O_CONST;
  return (x.op == O_UDIV || x.op == O_SDIV || x.op == O_UREM || x.op == O_SREM) && x.w > 8; }
bool isAbsNode(const Node& x) { return isAbs(x); }
Z3_ast Solver::tr(T t0, int ex) {
  auto& mm = memo[ex]; if (mm.size() < TM.n.size()) mm.resize(TM.n.size() + 1024, nullptr);
  if (mm[t0]) return mm[t0];
  std::vector<T> st{t0};
  auto bvs = [&](unsigned w) { return Z3_mk_bv_sort(ctx, w); };
  while (!st.empty()) {
    T t = st.back(); if (mm[t]) { st.pop_back(); continue; }
    const Node& x = TM.n[t]; bool ok = true;
    if (x.a && !mm[x.a]) { st.push_back(x.a); ok = false; } if (x.b && !mm[x.b]) { st.push_back(x.b); ok = false; } if (x.c && !mm[x.c]) { st.push_back(x.c); ok = false; }
    if (!ok) continue; st.pop_back();
    Z3_ast a = x.a ? mm[x.a] : 0, b = x.b ? mm[x.b] : 0, c = x.c ? mm[x.c] : 0, r = 0;
    auto b1 = [&](Z3_ast q) { return Z3_mk_ite(ctx, q, Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1))); };
    bool ab = isAbs(x);
    if (x.op == O_UF && ab && ex) { // mulhu/mulhs 64
      const std::string& nm = TM.ufs[x.val].name; unsigned w = x.w; 
      if (nm.compare(0, 5, "mulhu") == 0 || nm.compare(0, 5, "mulhs") == 0) { bool sg = nm[4] == 's';
        Z3_ast A = sg ? Z3_mk_sign_ext(ctx, w, a) : Z3_mk_zero_ext(ctx, w, a), B = sg ? Z3_mk_sign_ext(ctx, w, b) : Z3_mk_zero_ext(ctx, w, b);
        r = Z3_mk_extract(ctx, 2 * w - 1, w, Z3_mk_bvmul(ctx, A, B)); }
    }
    if (x.op == O_UF && ex == 2 && TM.ufs[x.val].ev2) { // floating point
      const std::string& nm = TM.ufs[x.val].name; auto so = [&](unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); }; auto fp = [&](Z3_ast q, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, q, so(w)); }; auto bv = [&](Z3_ast q) { return Z3_mk_fpa_to_ieee_bv(ctx, q); };
      Z3_ast rne = Z3_mk_fpa_rne(ctx); unsigned wa = TM.n[x.a].w; auto is = [&](const char* q) { return nm.compare(0, strlen(q), q) == 0; };
      if (is("fadd.")) r = bv(Z3_mk_fpa_add(ctx, rne, fp(a, x.w), fp(b, x.w))); else if (is("fsub.")) r = bv(Z3_mk_fpa_sub(ctx, rne, fp(a, x.w), fp(b, x.w))); else if (is("fmul.")) r = bv(Z3_mk_fpa_mul(ctx, rne, fp(a, x.w), fp(b, x.w))); else if (is("fdiv.")) r = bv(Z3_mk_fpa_div(ctx, rne, fp(a, x.w), fp(b, x.w)));
      else if (is("fcvt.")) r = bv(Z3_mk_fpa_to_fp_float(ctx, rne, fp(a, wa), so(x.w))); else if (is("itofs")) r = bv(Z3_mk_fpa_to_fp_signed(ctx, rne, a, so(x.w))); else if (is("ftoi")) r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(a, wa), x.w); }
    if (!r && (x.op == O_UF || (ab && !ex))) {
      u64 key = x.op == O_UF ? 1000 + x.val : x.op; key = key << 40; Z3_sort ds[3]; Z3_ast as[3]; unsigned na = 0;
      T aa[3] = {x.a, x.b, x.c}; for (int i = 0; i < 3; i++) if (aa[i]) { ds[na] = bvs(TM.n[aa[i]].w); as[na] = mm[aa[i]]; key |= (u64)TM.n[aa[i]].w << (i * 8); na++; }
      key |= (u64)x.w << 24;
      auto it = decls.find(key); Z3_func_decl d; if (it == decls.end()) { char nm[64]; snprintf(nm, 64, "U%llx", (unsigned long long)key); d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm), na, ds, bvs(x.w)); Z3_inc_ref(ctx, (Z3_ast)d); decls[key] = d; } else d = it->second;
      bool comm = x.op == O_MUL || (x.op == O_UF && TM.ufs[x.val].commut);
      if (comm && na >= 2 && as[0] != as[1]) { Z3_ast le = Z3_mk_bvule(ctx, as[0], as[1]); Z3_ast p0 = Z3_mk_ite(ctx, le, as[0], as[1]), p1 = Z3_mk_ite(ctx, le, as[1], as[0]); as[0] = p0; as[1] = p1; }
      r = Z3_mk_app(ctx, d, na, as);
    } else if (!r) switch (x.op) {
    case O_CONST: r = Z3_mk_unsigned_int64(ctx, x.val, bvs(x.w)); break;
    case O_VAR: { char nm[32]; snprintf(nm, 32, "v%u", t); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(x.w)); break; }
    case O_ADD: r = Z3_mk_bvadd(ctx, a, b); break; case O_SUB: r = Z3_mk_bvsub(ctx, a, b); break; case O_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
    case O_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break; case O_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
    case O_UREM: r = Z3_mk_bvurem(ctx, a, b); break; case O_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
    case O_AND: r = Z3_mk_bvand(ctx, a, b); break; case O_OR: r = Z3_mk_bvor(ctx, a, b); break; case O_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, a, b); break; case O_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break; case O_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
    case O_EQ: r = b1(Z3_mk_eq(ctx, a, b)); break; case O_ULT: r = b1(Z3_mk_bvult(ctx, a, b)); break; case O_ULE: r = b1(Z3_mk_bvule(ctx, a, b)); break;
    case O_SLT: r = b1(Z3_mk_bvslt(ctx, a, b)); break; case O_SLE: r = b1(Z3_mk_bvsle(ctx, a, b)); break;
    case O_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, a, Z3_mk_unsigned_int64(ctx, 1, bvs(1))), b, c); break;
    case O_CONCAT: r = Z3_mk_concat(ctx, a, b); break; case O_EXTRACT: r = Z3_mk_extract(ctx, x.val + x.w - 1, x.val, a); break;
    case O_ZEXT: r = Z3_mk_zero_ext(ctx, x.w - TM.n[x.a].w, a); break; case O_SEXT: r = Z3_mk_sign_ext(ctx, x.w - TM.n[x.a].w, a); break;
    default: throw std::runtime_error("tr op"); }
    mm[t] = r; }
  return mm[t0]; }

// variables (and uninterpreted functions, as pseudo variables >= 2^30) a term depends on
const std::vector<u32>& Solver::support(T t0) {
  if (supMemo.size() < TM.n.size()) supMemo.resize(TM.n.size() + 4096, nullptr);
  if (supMemo[t0]) return *supMemo[t0];
  std::vector<T> st{t0};
  while (!st.empty()) { T t = st.back(); if (supMemo[t]) { st.pop_back(); continue; } const Node& x = TM.n[t]; bool ok = true; for (T k : {x.a, x.b, x.c}) if (k && !supMemo[k]) { st.push_back(k); ok = false; } if (!ok) continue;
    st.pop_back(); std::vector<u32> own; if (x.op == O_VAR) own.push_back(t); else if (x.op == O_UF && !TM.ufs[x.val].ev) own.push_back((1u << 30) + x.val);
    std::vector<u32>* best = nullptr; std::vector<u32> r = own; 
    for (T k : {x.a, x.b, x.c}) if (k) { auto* q = supMemo[k]; if (q->empty()) continue; if (r.empty()) { r = *q; best = q; } else if (q != best) { std::vector<u32> u; std::set_union(r.begin(), r.end(), q->begin(), q->end(), std::back_inserter(u)); if (u.size() != r.size()) best = nullptr; if (u.size() == q->size()) best = q; r.swap(u); } }
    static std::vector<u32> empty; supMemo[t] = r.empty() ? &empty : best && best->size() == r.size() ? best : new std::vector<u32>(std::move(r)); }
  return *supMemo[t0]; }
void Solver::getModel(Z3_solver sv, Model* m) {
  Z3_model md = Z3_solver_get_model(ctx, sv); Z3_model_inc_ref(ctx, md);
  m->vals.clear(); m->ufs.clear(); m->ufElse.clear(); m->memo.clear();
  auto num = [&](Z3_ast a, u64& v) { return Z3_get_ast_kind(ctx, a) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(ctx, a, (uint64_t*)&v); };
  unsigned nc = Z3_model_get_num_consts(ctx, md);
  for (unsigned i = 0; i < nc; i++) { Z3_func_decl d = Z3_model_get_const_decl(ctx, md, i); const char* nm = Z3_get_symbol_string(ctx, Z3_get_decl_name(ctx, d)); Z3_ast v = Z3_model_get_const_interp(ctx, md, d); u64 x; if (v && nm[0] == 'v' && num(v, x)) m->vals[(T)atoi(nm + 1)] = x; }
  unsigned nf = Z3_model_get_num_funcs(ctx, md);
  for (unsigned i = 0; i < nf; i++) { Z3_func_decl d = Z3_model_get_func_decl(ctx, md, i); const char* nm = Z3_get_symbol_string(ctx, Z3_get_decl_name(ctx, d)); if (nm[0] != 'U') continue; u64 key = strtoull(nm + 1, 0, 16); u64 id = key >> 40; if (id < 1000) continue;
    Z3_func_interp fi = Z3_model_get_func_interp(ctx, md, d); if (!fi) continue; Z3_func_interp_inc_ref(ctx, fi);
    unsigned ne = Z3_func_interp_get_num_entries(ctx, fi);
    for (unsigned j = 0; j < ne; j++) { Z3_func_entry e = Z3_func_interp_get_entry(ctx, fi, j); Z3_func_entry_inc_ref(ctx, e); unsigned na = Z3_func_entry_get_num_args(ctx, e); std::vector<u64> k{id - 1000, 0, 0, 0}; u64 x; for (unsigned q = 0; q < na && q < 3; q++) if (num(Z3_func_entry_get_arg(ctx, e, q), x)) k[1 + q] = x; if (num(Z3_func_entry_get_value(ctx, e), x)) m->ufs[k] = x; Z3_func_entry_dec_ref(ctx, e); }
    { u64 x; Z3_ast ev = Z3_func_interp_get_else(ctx, fi); if (ev && num(ev, x)) m->ufElse[id - 1000] = x; }
    Z3_func_interp_dec_ref(ctx, fi); }
  Z3_model_dec_ref(ctx, md); }
bool Solver::hasAbs(T t0) {
  if (absMemo.size() < TM.n.size()) absMemo.resize(TM.n.size() + 1024, 0);
  std::vector<T> st{t0};
  while (!st.empty()) { T t = st.back(); if (absMemo[t]) { st.pop_back(); continue; } const Node& x = TM.n[t]; bool ok = true, a = isAbs(x);
    for (T k : {x.a, x.b, x.c}) if (k) { if (!absMemo[k]) { st.push_back(k); ok = false; } else if (absMemo[k] == 2) a = true; }
    if (a || ok) { absMemo[t] = a ? 2 : 1; if (ok || a) st.pop_back(); if (a) {} } }
  return absMemo[t0] == 2; }
bool Solver::hasFp(T t) { for (u32 v : support(t)) if (v >= (1u << 30) && TM.ufs[v - (1u << 30)].ev2) return true; return false; }
int Solver::exactFp(const std::vector<T>& pc, T extra, Model* m) {
  double t0 = now(); SST.exact++; int r = -1;
  for (int k = 0; k < 3000; k++) { Model g; g.exact = g.randomize = g.shaped = true; g.rng = 88172645463325252ULL + 0x9E3779B97F4A7C15ULL * (k + 1); if (!g.eval(extra)) continue; bool ok = true; for (T t : pc) if (!g.eval(t)) { ok = false; break; } if (ok) { *m = std::move(g); m->randomize = false; m->memo.clear(); SST.time += now() - t0; return 1; } if (now() - t0 > 2) break; }
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)); Z3_solver s2 = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s2);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 3 * timeoutMs); Z3_solver_set_params(ctx, s2, p); Z3_params_dec_ref(ctx, p);
  for (T t : pc) Z3_solver_assert(ctx, s2, Z3_mk_eq(ctx, tr(t, 2), one)); Z3_solver_assert(ctx, s2, Z3_mk_eq(ctx, tr(extra, 2), one));
  Z3_lbool q = Z3_solver_check(ctx, s2); r = q == Z3_L_TRUE ? 1 : q == Z3_L_FALSE ? 0 : -1; if (r == 1) { getModel(s2, m); m->exact = true; }
  Z3_solver_dec_ref(ctx, s2); SST.time += now() - t0; return r; }
int Solver::check(const std::vector<T>& pc0, T extra, Model* m, const Model* base) {
  double t0 = now(); SST.queries++; int r;
  // independent-constraint slicing
  std::vector<T> pc; const std::vector<T>* all = &pc0;
  if (extra) { std::set<u32> need; { auto& s0 = support(extra); need.insert(s0.begin(), s0.end()); } std::vector<u8> in(pc0.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc0.size(); i++) { if (in[i]) continue; auto& sp = support(pc0[i]); bool hit = false; for (u32 v : sp) if (need.count(v)) { hit = true; break; } if (!hit) continue; in[i] = 1; ch = true; need.insert(sp.begin(), sp.end()); } }
    for (size_t i = 0; i < pc0.size(); i++) if (in[i]) pc.push_back(pc0[i]); }
  else pc = *all;
  std::vector<T> key = pc; std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(0); key.push_back(extra); std::string ks((const char*)key.data(), key.size() * sizeof(T));
  auto fill = [&](CE& e) { if (!m) return; Model nm; if (base) { nm.vals = base->vals; nm.ufs = base->ufs; nm.ufElse = base->ufElse; nm.defval = base->defval; }
    for (u32 id : e.ufIds) { nm.ufElse.erase(id); auto it = nm.ufs.lower_bound(std::vector<u64>{id, 0, 0, 0}); while (it != nm.ufs.end() && it->first[0] == id) it = nm.ufs.erase(it); }
    for (auto& v : e.vals) nm.vals[v.first] = v.second; for (auto& u : e.ufs) nm.ufs[u.first] = u.second; for (auto& u : e.ufElse) nm.ufElse[u.first] = u.second; nm.memo.clear(); *m = std::move(nm); };
  auto cit = cache.find(ks); if (cit != cache.end() && (cit->second.r != 1 || cit->second.hasModel || !m)) { SST.cached++; fill(cit->second); (cit->second.r == 1 ? SST.sat : cit->second.r == 0 ? SST.unsat : SST.unknown)++; return cit->second.r; }
  usedAbs = extra && hasAbs(extra); for (T t : pc) if (!usedAbs && hasAbs(t)) usedAbs = true;
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)); Model mm; bool gotM = false;
  Z3_solver_push(ctx, s); for (T t : pc) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(t, 0), one)); if (extra) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(extra, 0), one));
  Z3_lbool q = Z3_solver_check(ctx, s);
  r = q == Z3_L_TRUE ? 1 : q == Z3_L_FALSE ? 0 : -1;
  if (r == 1 && !usedAbs) { getModel(s, &mm); gotM = true; }
  Z3_solver_pop(ctx, s, 1);
  if (r != 0 && usedAbs && extra) { // guess an assignment and evaluate it
    for (int k = 0; k < 120 && r != 2; k++) { Model g; g.randomize = g.shaped = true; g.rng = 88172645463325252ULL + 0x9E3779B97F4A7C15ULL * (k + 1); bool ok = true;
      for (T t : pc) if (!g.eval(t)) { ok = false; break; } if (ok && g.eval(extra)) { mm = std::move(g); mm.randomize = false; mm.memo.clear(); gotM = true; r = 2; } } }
  if (r == 2) r = 1; else
  if (r != 0 && usedAbs) { // exact re-check
    SST.exact++;
    Z3_solver s2 = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s2);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs); Z3_solver_set_params(ctx, s2, p); Z3_params_dec_ref(ctx, p);
    for (T t : pc) Z3_solver_assert(ctx, s2, Z3_mk_eq(ctx, tr(t, 1), one));
    if (extra) Z3_solver_assert(ctx, s2, Z3_mk_eq(ctx, tr(extra, 1), one));
    q = Z3_solver_check(ctx, s2); r = q == Z3_L_TRUE ? 1 : q == Z3_L_FALSE ? 0 : -1;
    if (r == 1) { getModel(s2, &mm); gotM = true; }
    Z3_solver_dec_ref(ctx, s2); }
  CE e; e.r = r; e.hasModel = gotM; if (gotM) { // complete the slice's assignment: unmentioned variables are zero
    std::set<u32> sup; if (extra) { auto& q1 = support(extra); sup.insert(q1.begin(), q1.end()); } for (T t : pc) { auto& q1 = support(t); sup.insert(q1.begin(), q1.end()); }
    for (u32 v : sup) { if (v >= (1u << 30)) e.ufIds.push_back(v - (1u << 30)); else { auto it = mm.vals.find(v); e.vals.push_back({v, it == mm.vals.end() ? 0 : it->second}); } } e.ufs = mm.ufs; e.ufElse = mm.ufElse; }
  { static const char* dbg = getenv("SDBG"); double dt = now() - t0; if (dbg && dt > atof(dbg)) fprintf(stderr, "slow %.3f r=%d pc=%zu: %s\n", dt, r, pc.size(), extra ? tstr(extra, 5).substr(0, 400).c_str() : "-"); }
  if (m && r == 1) fill(e);
  if (cache.size() < 400000) cache[ks] = std::move(e);
  SST.time += now() - t0; (r == 1 ? SST.sat : r == 0 ? SST.unsat : SST.unknown)++;
  return r; }
