// LLVM-IR symbolic interpreter
#pragma once
#include "term.h"
#include "solver.h"
#include <set>
struct PathStop { std::string why; int kind; }; // kind 0: infeasible/assumption, 1: violation candidate, 2: unsupported/limit
struct Dec { u8 dir, forced; u64 val; T t = 0; };
struct PathWork { std::vector<Dec> dec; Model model; };

struct Page { u8 d[4096]; u8 sh[4096]; T* sym; Page* save; bool fresh; u64 no; };

struct Mem {
  std::unordered_map<u64, Page*> pages; u64 cno[1024]; Page* cpg[1024];
  std::vector<std::pair<u64,Page*>> dirty; bool snap = false;
  std::vector<u64> freshPages;
  Mem();
  Page* get(u64 no) { unsigned h = no & 1023; if (cno[h] == no) return cpg[h]; auto it = pages.find(no); if (it == pages.end()) return nullptr; cno[h] = no; cpg[h] = it->second; return it->second; }
  Page* make(u64 no);
  void touch(Page* p);
  void map(u64 a, u64 n, u8 sh);      // set shadow on a range (creating pages)
  bool valid(u64 a, unsigned n);
  u8 shadow(u64 a) { Page* p = get(a >> 12); return p ? p->sh[a & 4095] : 0; }
  void setByte(u64 a, V b); V getByte(u64 a);
  V load(u64 a, unsigned n, bool be); void store(u64 a, V v, unsigned n, bool be);
  u64 loadc(u64 a, unsigned n, bool be);
  void snapshot(); void restore();
};

struct Fn;
struct Engine {
  unsigned pw; bool be; std::string archName;
  Mem mem; Solver solver;
  // path state
  std::vector<Dec> dec; size_t decPos; std::vector<T> pc; std::unordered_map<T,u8> known; Model model;
  std::vector<PathWork> work; u64 nPaths = 0, nDone = 0, nInst = 0, instLimit = 80000000, nForks = 0, nUnknown = 0;
  u64 heapTop, mmapTop, stkTop, mmapBase; u64 heapBase;
  std::map<u64,u64> execs; std::map<u64,u64> allocs; std::set<u64> freed; // heap blocks: addr -> size
  std::map<u64,u64> maps;                          // mmap ranges
  long mallocFailAt = -1, mallocCount = 0; V mallocFailSym; // failure injection
  std::function<bool()> failHook;
  std::function<V(V)> normHook; std::function<int(const std::vector<T>&, T, Model*, const Model*)> refuteHook; u64 nLinear = 0;
  int chk(T extra, Model* m, const Model* base = nullptr) { if (refuteHook && extra) { int r = refuteHook(pc, extra, m, base); if (r >= 0) { nLinear++; return r; } } return solver.check(pc, extra, m, base); } std::function<bool(V, unsigned, V&)> ldHook; std::function<bool(V, V, unsigned)> stHook; std::function<bool(const std::string&, const std::vector<V>&, V&)> callHook; // memory and system call models of tasks_memory.cpp
  std::function<bool(const std::string&, const std::vector<V>&, V&)> extHook;
  std::map<std::string, V> feat; std::vector<V> asmOut;   // results for feature probes
  std::string curFn; int depth = 0; u64 lockDepth = 0, lockCount = 0;
  std::map<std::string,u64> stats;
  std::set<std::string> fnsRun; unsigned fnEpoch = 1; void newFnEpoch() { fnEpoch++; fnsRun.clear(); }
  void* impl = nullptr;
  bool randomOrder = false; u64 rng = 12345;
  int mmapFailAt = -1; int mmapCount = 0; i64 execOffset = 0; int execLead = 0;
  std::map<int,std::vector<Page*>> files; int nextFd = 100;
  void loadBitcode(const char* path);
  void setup();                      // after load: initialise globals, snapshot
  void startPath(const PathWork& w);
  bool branch(V c);                  // fork on 1-bit condition
  u64 concretize(V v);
  void assume(V c);
  V call(const std::string& fn, const std::vector<V>& args);
  bool hasFn(const std::string& fn);
  u64 globalAddr(const std::string& name);
  u64 fnAddr(const std::string& name);
  std::string fnName(u64 addr);
  V P(u64 x) { return V(x, pw); }
  [[noreturn]] void fail(const std::string& why) { throw PathStop{why + " [in " + curFn + "]", 1}; }
  [[noreturn]] void unsup(const std::string& why) { throw PathStop{why + " [in " + curFn + "]", 2}; }
  V loadV(V addr, unsigned n); void storeV(V addr, V v, unsigned n);
  u64 doMalloc(u64 n); void doFree(u64 p);
  u64 doMmap(u64 n);
  bool provable(V c);                // pc => c
  int satisfiable(V c, Model* m);    // pc && c
};
