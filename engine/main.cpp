#include "tasks.h"
#include <chrono>
#include <algorithm>
#include <unistd.h>
#include <fnmatch.h>
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string js(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32 || (u8)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (u8)c); o += b; } else o += c; } return o + "\""; }
bool archAsm(Engine* E, const std::string& nm, const std::vector<V>& A, V& r);
int main(int argc, char** argv) {
  std::string bc, arch, prop, pat, pref; int si = 0, sn = 1; double budget = 1e9; u64 seed = 1; bool verbose = false, list = false; unsigned mpaths = 0; int maxv = 3; std::set<std::string> focus; int nsample = 6;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--bc") bc = nx(); else if (a == "--variant") AI.variant = nx(); else if (a == "--arch") arch = nx(); else if (a == "--prop") prop = nx(); else if (a == "--shard") sscanf(argv[++i], "%d/%d", &si, &sn); else if (a == "--budget") budget = atof(argv[++i]); else if (a == "--seed") seed = atoll(argv[++i]); else if (a == "--task") pat = nx(); else if (a == "-v") verbose = true; else if (a == "--thorough") THOROUGH = true; else if (a == "--list") list = true; else if (a == "--paths") mpaths = atoi(argv[++i]); else if (a == "--maxviol") maxv = atoi(argv[++i]); else if (a == "--focus") { std::string f = nx(); size_t p = 0; while (p <= f.size()) { size_t e = f.find(',', p); if (e == std::string::npos) e = f.size(); focus.insert(f.substr(p, e - p)); p = e + 1; } } else if (a == "--samples") nsample = atoi(argv[++i]); else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; } }
  Engine E; EP = &E; E.archName = arch; E.loadBitcode(bc.c_str()); E.setup(); E.feat["getauxval"] = V(arch.compare(0, 5, "s390x") ? 0x3ff : 0xffffff, 64);
  if (arch == "riscv64c") E.feat["riscv.c"] = V(1, 1); if (arch == "riscv64_ext") E.feat["riscv.b"] = V(1, 1);
  E.extHook = [&](const std::string& nm, const std::vector<V>& A, V& r) { return archAsm(&E, nm, A, r); };
  u64 ca = E.globalAddr("hz_consts"); int ci = 0;
#define X(n) K.c_##n = (int)E.mem.loadc(ca + 8 * ci++, 8, E.be);
#include "consts.def"
#undef X
  auto inf = [&](int i) { PathWork w; E.startPath(w); return (int)sx(E.concretize(E.call("hz_info", {V(i, 32)})), 32); };
  AI.name = arch; AI.xl = E.pw; AI.be = E.be; AI.nReg = inf(0); AI.nSaved = inf(1); AI.nFreg = inf(2); AI.nFsaved = inf(3); AI.nVreg = inf(4); AI.nVsaved = inf(5); AI.wordShift = inf(6); AI.maskedShift = inf(7); AI.maskedShift32 = inf(8); AI.unaligned = inf(9); AI.fpuUnaligned = inf(10); AI.nScratch = inf(11); AI.nFscratch = inf(12); AI.localsBase = inf(16);
  AI.sext32 = arch.compare(0, 7, "riscv64") == 0 || arch == "mips64el" || arch == "loongarch64";
  auto st = [&](const char* p) { return arch.compare(0, strlen(p), p) == 0; };
  struct { const char* p; const char* isa; Machine* (*mk)(Engine&); } tab[] = {{"riscv", "riscv", mkRiscV}, {"x86", "x86", mkX86}, {"aarch64", "a64", mkA64}, {"armv7", "arm", mkArm}, {"armv6", "arm", mkArm}, {"armt2", "thumb", mkThumb}, {"mips", "mips", mkMips}, {"ppc", "ppc", mkPpc}, {"s390x", "s390", mkS390}, {"loongarch64", "loong", mkLoong}};
  for (auto& t : tab) if (st(t.p)) { AI.isa = t.isa; mkMachine = t.mk; }
  AI.f64pair = feature(E, K.c_HAS_F64_AS_F32_PAIR);
  if (prop.compare(0, 4, "gen.") == 0) GMODE = 1; else if (prop.compare(0, 5, "fail.") == 0) GMODE = 2; else if (prop.compare(0, 4, "ser.") == 0) GMODE = 3; if (GMODE) prop = prop.substr(prop.find('.') + 1);
  if (AI.variant == "prot" && prop != "alloc") E.execOffset = 0x4560000; auto it = registry().find(prop); if (it == registry().end()) { fprintf(stderr, "no task group %s\n", prop.c_str()); return 3; }
  Tasks T; it->second(T); if (list) { for (auto& t : T) printf("%s\n", t.id.c_str()); return 0; }
  // deterministic shuffle so that a time budget samples all groups
  u64 rg = seed * 0x9e3779b97f4a7c15ULL + 1; for (size_t i = T.size(); i > 1; i--) { rg = rg * 6364136223846793005ULL + 1442695040888963407ULL; std::swap(T[i - 1], T[(rg >> 33) % i]); }
  double t0 = nowS(); RunOpts o; o.deadline = t0 + budget; o.maxViol = 1; int nv = 0; u64 done = 0, inc = 0, skip = 0;
  { Tasks M; for (size_t k = 0; k < T.size(); k++) if ((int)(k % sn) == si && (pat.empty() || !fnmatch(pat.c_str(), T[k].id.c_str(), 0))) M.push_back(T[k]); T.swap(M); }
  std::set<std::string> allFns; auto merge = [&] { allFns.insert(E.fnsRun.begin(), E.fnsRun.end()); };
  // tasks that reach a function which differs from the recorded baseline go first
  if (!focus.empty()) { Tasks hit, rest; std::vector<std::pair<int, Task>> sc; double lim = t0 + budget * 0.25;
    for (auto& t : T) { if (nowS() > lim) { rest.push_back(t); continue; } Task u = t; u.maxPaths = 1; TaskStat s; std::vector<Viol> vs; E.newFnEpoch(); try { exploreTask(E, u, o, s, vs); } catch (std::exception&) {} merge(); bool h = false; for (auto& f : E.fnsRun) if (focus.count(f)) { h = true; break; } (h ? hit : rest).push_back(t); }
    T.swap(hit); for (auto& t : rest) T.push_back(t); }
  for (size_t k = 0; k < T.size(); k++) { Task& t = T[k];
    if (nowS() > o.deadline) { skip++; continue; }
    if (mpaths) t.maxPaths = mpaths;
    TaskStat s; std::vector<Viol> vs; double a = nowS(); std::string smp; o.sample = nsample > 0 && (nsample > 1000 || (k * 2654435761u >> 7) % 5 == 0) ? &smp : nullptr;
    double od = o.deadline; o.deadline = std::min(od, a + 20); E.newFnEpoch();
    try { exploreTask(E, t, o, s, vs); } catch (std::exception& e) { s.complete = false; s.note = std::string("internal: ") + e.what(); }
    o.deadline = od; merge();
    done++; if (!s.complete) inc++;
    printf("{\"t\":%s,\"paths\":%llu,\"obl\":%llu,\"triv\":%llu,\"steps\":%llu,\"ir\":%llu,\"ok\":%s,\"ms\":%d,\"note\":%s}\n", js(t.id).c_str(), (unsigned long long)s.paths, (unsigned long long)s.obl, (unsigned long long)s.oblTrivial, (unsigned long long)s.machSteps, (unsigned long long)s.irInst, s.complete ? "true" : "false", (int)((nowS() - a) * 1000), js(s.note).c_str());
    if (!smp.empty() && vs.empty()) { nsample--; printf("{\"sample\":%s,\"replay\":%s}\n", js(t.id).c_str(), js(smp).c_str()); }
    for (auto& v : vs) { nv++; printf("{\"viol\":%s,\"desc\":%s,\"replay\":%s}\n", js(v.task).c_str(), js(v.desc).c_str(), js(v.replay).c_str()); if (verbose) fprintf(stderr, "VIOL %s: %s\n%s\n", v.task.c_str(), v.desc.c_str(), v.replay.substr(0, 3000).c_str()); }
    fflush(stdout); if (nv >= maxv) break; }
  E.fnsRun = allFns;
  printf("{\"sum\":1,\"arch\":%s,\"done\":%llu,\"incomplete\":%llu,\"skipped\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"exact\":%llu,\"solver_s\":%.3f,\"wall\":%.2f,\"fns\":[", js(arch).c_str(), (unsigned long long)done, (unsigned long long)inc, (unsigned long long)skip, (unsigned long long)SST.queries, (unsigned long long)SST.sat, (unsigned long long)SST.unsat, (unsigned long long)SST.unknown, (unsigned long long)SST.exact, SST.time, nowS() - t0);
  bool first = true; for (auto& f : E.fnsRun) { printf("%s%s", first ? "" : ",", js(f).c_str()); first = false; } printf("]}\n"); fflush(stdout); _exit(0); }
