// Symbolic machine state shared by all instruction-set simulators
#pragma once
#include "ir.h"
struct Acc { V addr; unsigned n; V val; bool write; };
static const u64 STK_LO = 0x4fe00000, STK_HI = 0x50100000, SP0 = 0x50080000;
// Byte-addressed user memory: initial contents are an uninterpreted function of the address.
struct UMem {
  struct B { V addr, val; };
  std::vector<B> w;             // byte write log, oldest first
  V rd(V a);                    // one byte
  void wr(V a, V b);
  static V init(V a);
};
struct Machine {
  Engine& E; unsigned xl; bool be;
  V r[40]; V f[40], fh[40];     // integer registers, fp registers (low/high 64 bits)
  bool useE = false; /* memory accesses go to the engine's checked heap */ u64 pc = 0; u64 codeLo = 0, codeHi = 0; u64 steps = 0;
  std::unordered_map<u64,V> stk; std::vector<u64> stkW, stkR;
  UMem um; std::vector<Acc> acc;   // user memory accesses in order
  std::function<V(V)> canon;       // maps an address to an equal, canonical term
  std::function<bool(Machine&, V)> jumpHook; // indirect jump to a symbolic address
  std::function<bool(Machine&)> trap; // called when pc leaves the code; returns true if handled
  Machine(Engine& e) : E(e), xl(e.pw), be(e.be) {}
  virtual ~Machine() {}
  virtual void step() = 0;
  virtual void init() {}
  virtual std::vector<int> calleeSaved() = 0;      // integer registers preserved across calls by the ABI (without sp)
  virtual std::vector<int> calleeSavedF() { return {}; }
  virtual int spReg() = 0;
  virtual int nGpr() { return 32; }
  virtual int nFpr() { return 32; }
  virtual V getSp() { return r[spReg()]; }
  virtual void setReturn(u64 addr) = 0;            // establish the return address for a call to the code
  virtual V getF(unsigned i, bool d) { return d ? f[i] : vext(f[i], 0, 32); }
  virtual void setF(unsigned i, bool d, V v) { f[i] = d ? v : vconcat(vext(f[i], 32, 32), v); }
  virtual std::vector<int> argRegs() = 0; virtual std::vector<int> argRegsF() { return {}; }
  virtual int retReg() = 0;
  virtual int retFReg() { return 0; } virtual bool fixedReg(int) { return false; } virtual void havocFlags(const std::string&) {}
  virtual V getArgF(int i, bool d) { return getF(i, d); } virtual V getRetF(bool d) { return getF(retFReg(), d); } virtual void setRetF(bool d, V v) { setF(retFReg(), d, v); }
  virtual int argFPos(int i) { auto v = argRegsF(); for (size_t k = 0; k < v.size(); k++) if (v[k] == i) return (int)k; return -1; }
  virtual int lrReg() { return -1; } virtual u64 popReturn() { return E.concretize(r[lrReg()]); } virtual void retFixup(u64) {}
  virtual u64 abiWritable() { return 0; } // bytes above the entry stack pointer that belong to the callee
  V load(V a, unsigned n, bool aligned = false);   // n bytes 1..8
  void store(V a, V v, unsigned n, bool aligned = false);
  void needAligned(V a, unsigned n);
  V resvA; unsigned resvN = 0; // exclusive monitor
  bool exclusiveOk(V a, unsigned n) { bool ok = false; if (resvN == n) { V q = veq(a, resvA); ok = q.conc() ? q.c : E.branch(q); } resvN = 0; return ok; }
  V fetch(u64 a, unsigned n);
  u64 cc(V v) { return E.concretize(v); }
  u64 cb(V insn, unsigned lo, unsigned w) { return E.concretize(vext(insn, lo, w)); }
  // run until pc == stop (or a trap handler stops it)
  bool stopped = false;
  void run(u64 stop, u64 maxSteps = 4000);
  V ifz(V b, V z, V nz) { V c = vne(b, V(0, b.w)); if (E.provable(c)) return nz; return vite(c, nz, z); } // division by zero result
  void jump(V target) { if (jumpHook && !target.conc() && jumpHook(*this, target)) return; pc = E.concretize(target); }
  [[noreturn]] void undef(const std::string& what) { char b[200]; snprintf(b, 200, "undecodable instruction at code+0x%llx: %s", (unsigned long long)(pc - codeLo), what.c_str()); throw PathStop{b, 3}; }
};
bool isStk(const V& a, u64& x);
// floating point helper: uninterpreted operations on bit patterns
V fpop(const std::string& name, unsigned w, V a, V b = V(), V c = V(), bool commut = false);
